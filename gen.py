#!/opt/venv/bin/python
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os
from props import P, NA, SETUP
H = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
with open(H + "/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "state": p["state"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")
na = {i for i, _ in NA}
m = {"version": 1, "setup_cmd": SETUP,
     "checks": [{"property": p["id"], "quick_cmd": f"{PY} run.py {p['id']} --tier quick", "thorough_cmd": f"{PY} run.py {p['id']} --tier thorough",
                 "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"], "level": "model_checking", "level_note": p["note"]}
                for p in P if p["id"] not in na],
     "not_applicable": [{"property": i, "reason": r} for i, r in NA],
     "notes": "No hooks in /repo: the checks import the library from /repo's working tree and drive its public API. See DESIGN.md."}
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
