"""Summarise the last replay file: python3 lib/vf/summ.py C01"""
import json,sys,collections,re,os
f='/verif/evidence/replay/%s.json'%sys.argv[1]
if not os.path.exists(f): sys.exit(0)
d=json.load(open(f))
c=collections.OrderedDict()
for v in d['violations']:
    k=(v['op'],tuple(v['clauses']),re.sub(r'[-\d.]+','#',v.get('err') or '')[:160])
    c.setdefault(k,[]).append((v['trace_id'],v['event'],json.dumps(v.get('args'))[:250]))
print(d['n_violations'])
for k,v in c.items(): print(len(v),k,v[0])
