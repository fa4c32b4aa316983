#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (one source, so they stay in step)."""
import json, os, sys

here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from props import PROPS, NA

with open(os.path.join(root, "properties.jsonl"), "w") as fh:
    for p in PROPS + NA:
        d = {
            "id": p["id"],
            "title": p["title"],
            "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["for_all"]},
            "why_tests_cant": p["why"],
            "anchors": {
                "files": p["files"],
                "state": p.get("state", []),
                "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                "observe_at": p["observe"],
                "hook_needed": None,
            },
        }
        fh.write(json.dumps(d) + "\n")
checks = []
for p in PROPS:
    checks.append({
        "property": p["id"],
        "quick_cmd": f"python3 check.py {p['id']} --tier quick",
        "thorough_cmd": f"python3 check.py {p['id']} --tier thorough",
        "technique": p["technique"],
        "level": "other",
        "level_note": p["note"],
    })
m = {
    "version": 1,
    "setup_cmd": "python3 -c \"import sys; sys.path.insert(0, '.'); from sa import facts; print(facts.extract())\"",
    "checks": checks,
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA],
}
with open(os.path.join(root, "MANIFEST.json"), "w") as fh:
    json.dump(m, fh, indent=1)
    fh.write("\n")
