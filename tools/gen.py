#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here)
sys.dont_write_bytecode = True
from props import PROPS, NOT_APPLICABLE, HOOKS
with open(root + "/properties.jsonl", "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
m = {"version": 1, "setup_cmd": "bash setup.sh", "hooks": HOOKS, "checks": [], "not_applicable": NOT_APPLICABLE}
na = {x["property"] for x in NOT_APPLICABLE}
for p in PROPS:
    if p["id"] in na:
        continue
    m["checks"].append({"property": p["id"], "quick_cmd": "bash check.sh %s quick" % p["id"], "thorough_cmd": "bash check.sh %s thorough" % p["id"],
                        "technique": p["technique"], "level": p.get("level", "exploration"), "level_note": p["level_note"], "evidence_file": "evidence/%s.json" % p["id"]})
with open(root + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
print(len(m["checks"]), "checks")
