"""Entry point: decide one property.  See check.sh."""
import importlib
import json
import os
import sys
import time
import traceback

from . import harness


def main():
    pid, tier = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    registry = importlib.import_module("registry")
    mod_name = registry.DRIVERS[pid]
    chk = harness.Check(pid, tier, seed)
    t0 = time.time()
    try:
        mod = importlib.import_module(mod_name)
        fn = getattr(mod, "run_" + pid, None) or mod.run
        fn(chk)
        rc = chk.finish(time.time() - t0)
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    sys.exit(rc)


if __name__ == "__main__":
    main()
