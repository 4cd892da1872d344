#!/bin/bash
# tryseed.sh ID [notest] : apply seeded/ID to /repo, run stable tests, demo and the property's check, undo
V=$(cd "$(dirname "$0")/.." && pwd); d=$V/seeded/$1
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo || exit 2
[ -z "$(git status --porcelain --untracked-files=no)" ] || { echo dirty; exit 2; }
bash $d/demo.sh >/tmp/demo0.log 2>&1; d0=$?
git apply $d/patch.diff || exit 2
bash /opt/vp/build.sh --extensions >/dev/null 2>&1 || echo BUILDFAIL
bash $d/demo.sh >/tmp/demo1.log 2>&1; d1=$?
miss=skipped
if [ "$2" != notest ]; then bash /opt/vp/test.sh /tmp/out_seed.json >/tmp/test_seed.log 2>&1
miss=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/out_seed.json'))
g=lambda x:set(x.get('passed',x.get('stable',[])))
m=sorted(g(b)-g(o));print(len(m),m[:3])"); fi
cd $V; bash check.sh $p quick >/tmp/check_seed.log 2>&1; c=$?
git -C /repo checkout -- . ; bash /opt/vp/build.sh --extensions >/dev/null 2>&1
echo "SEED $1 prop=$p demo_clean=$d0 demo_patched=$d1 tests_missing=$miss check_exit=$c $(grep -c '^VIOLATION property='$p /tmp/check_seed.log)"
