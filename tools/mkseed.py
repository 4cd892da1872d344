"""mkseed.py ID PROP FILE  <<< 'OLD\n=====\nNEW'   makes seeded/ID/patch.diff from /repo HEAD (scratch copy of one file)."""
import subprocess, sys, os, json, tempfile, shutil
sid, prop, spec = sys.argv[1:4]
needs, breaks = sys.argv[4:6]
edits = open(spec).read()
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = f"{V}/seeded/{sid}"
os.makedirs(d, exist_ok=True)
tmp = tempfile.mkdtemp()
diff = ""
byfile = {}
for blk in edits.split("<<<<<<FILE ")[1:]:
    fn, rest = blk.split("\n", 1)
    old, new = rest.split("\n======\n")
    new = new.rstrip("\n")
    if fn not in byfile:
        byfile[fn] = open(f"/repo/{fn}").read()
    assert byfile[fn].count(old) == 1, (fn, byfile[fn].count(old), old)
    byfile[fn] = byfile[fn].replace(old, new)
for fn, txt in byfile.items():
    open(f"{tmp}/new", "w").write(txt)
    p = subprocess.run(["diff", "-u", f"--label=a/{fn}", f"--label=b/{fn}", f"/repo/{fn}", f"{tmp}/new"], capture_output=True, text=True)
    diff += p.stdout
shutil.rmtree(tmp)
open(f"{d}/patch.diff", "w").write(diff)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), indent=1)
if not os.path.exists(f"{d}/demo.sh"):
    open(f"{d}/demo.sh", "w").write('#!/bin/bash\n. /opt/vp/env.sh\nhere=$(cd "$(dirname "$0")" && pwd)\ncd /repo && exec "$PY" -W ignore "$here/demo.py"\n')
    os.chmod(f"{d}/demo.sh", 0o755)
