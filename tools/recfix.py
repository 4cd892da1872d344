"""Record fix commits not yet in known_findings.jsonl:  tools/recfix.py PROP [since]  (all unrecorded ones get PROP)"""
import json, subprocess, sys
from pathlib import Path
K = Path(__file__).resolve().parents[1] / "known_findings.jsonl"
prop = sys.argv[1]
have = K.read_text()
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines()
with K.open("a") as f:
    for l in log:
        h, s = l.split(" ", 1)
        if s.startswith("fix:") and h not in have:
            t = f"fixed: property={prop} {h} {s[5:]}"
            f.write(json.dumps({"status": "fixed", "property": prop, "text": t}) + "\n")
            print(t)
