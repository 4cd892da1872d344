"""One source for properties.jsonl and MANIFEST.json:  python3 tools/props.py"""
import json
import re
from pathlib import Path

V = Path(__file__).resolve().parents[1]
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, note="", technique=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe or [], state=state or [], note=note, technique=technique))


exec((V / "tools" / "proplist.py").read_text())

NA = []
if (V / "tools" / "na.json").exists():
    NA = json.loads((V / "tools" / "na.json").read_text())

with open(V / "properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        assert len(re.findall(r"[.;] ", p["statement"])) <= 6, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "state": p["state"],
                        "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")

TECH = "TLA+ specification checked with TLC; trace validation of real API calls against it"
NOTE = ("Every recorded call of the real code is validated by TLC as a step of the specification (all clauses "
        "evaluated at every step), on randomly generated objects, arguments and call sequences within the bounds in "
        "DESIGN.md. Trusts: TLC, the projection of objects to abstract state, numpy/astropy. ")
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": [{
        "property": p["id"], "quick_cmd": f"bash check.sh {p['id']} quick",
        "thorough_cmd": f"bash check.sh {p['id']} thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": p["technique"] or TECH, "level": "model_checking", "level_note": NOTE + p["note"]} for p in P
        if p["id"] not in [n["property"] for n in NA]],
    "not_applicable": NA,
    "notes": "TLA+ with TLC; no hooks in /repo were needed (the public API exposes the abstract state).",
}
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
