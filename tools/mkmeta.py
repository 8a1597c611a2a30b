#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS, NOT_APPLICABLE      # noqa: E402

ROOT = os.path.dirname(HERE)
with open(ROOT + "/properties.jsonl", "w") as fh:
    for p in PROPS + NOT_APPLICABLE:
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}
        assert len(d["title"]) <= 80, (p["id"], len(d["title"]))
        fh.write(json.dumps(d) + "\n")
man = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": []}
for p in PROPS:
    cmd = "python3 check.py %s" % p["id"]
    man["checks"].append({"property": p["id"], "quick_cmd": cmd + " --tier quick", "thorough_cmd": cmd + " --tier thorough",
                          "technique": p["technique"], "level": "other", "level_note": p["note"]})
for p in NOT_APPLICABLE:
    man["not_applicable"].append({"property": p["id"], "reason": p["reason"]})
with open(ROOT + "/MANIFEST.json", "w") as fh:
    json.dump(man, fh, indent=1)
    fh.write("\n")
