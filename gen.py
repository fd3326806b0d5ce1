#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table in props.py (developer tool, not a check)"""
import json
import os

from props import PROPS, NA

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in PROPS + NA:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["q"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "observe_at": p.get("obs", []), "hook_needed": None}}) + "\n")
m = {"version": 1,
     "setup_cmd": "python3 -c 'import ast'",
     "checks": [{"property": p["id"],
                 "quick_cmd": "python3 check.py %s quick" % p["id"],
                 "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                 "technique": p["tech"], "level": "other", "level_note": p["note"]} for p in PROPS],
     "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA]}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(PROPS), "claimed,", len(NA), "not applicable")
