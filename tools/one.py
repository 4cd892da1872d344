"""Re-run one recorded scenario on the real code with tracebacks: tools/one.py PROP name:seed:idx"""
import sys, os, hashlib, tempfile, json, traceback
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0]=[V+"/lib",V+"/drivers"]
import numpy as np
import vf.harness as h, importlib
from registry import DRIVERS
pid,tid=sys.argv[1:3]
m=importlib.import_module(DRIVERS[pid]) if isinstance(DRIVERS,dict) else None
name,seed,idx=tid.rsplit(":",2)
class C:
    def n(self,a,b=None): return 1
    thorough=False
    def scenarios(self,nm,fn,count):
        if nm==name:
            def call(f,*a,**k):
                try: return "ok",f(*a,**k)
                except Exception as e:
                    traceback.print_exc(); return "error",f"{type(e).__name__}: {e}"[:300]
            for mod in list(sys.modules.values()):
                if getattr(mod,"call",None) is h.call and mod is not h: mod.call=call
            rng=np.random.default_rng([int(seed),int(idx),int(hashlib.sha1(name.encode()).hexdigest()[:8],16)])
            rec=h.Rec(tid); rec.scratch=tempfile.mkdtemp()
            try: fn(rng,rec)
            except Exception: traceback.print_exc()
            json.dump(rec.to_json(),open("/tmp/one.json","w"),indent=1)
        return []
    def __getattr__(self,k): return lambda *a,**k: None
(getattr(m,"run_"+pid,None) or m.run)(C())
