#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from tools/properties.py (development helper, not run by any check)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from properties import PROPS
V = os.path.dirname(HERE)
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
        assert len(p["title"]) <= 80, p["id"]
m = {"version": 1,
     "setup_cmd": "python3 checker/extract.py",
     "checks": [], "not_applicable": []}
for p in PROPS:
    if "na" in p:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
    else:
        m["checks"].append({"property": p["id"], "quick_cmd": "python3 checker/check.py %s" % p["id"],
                            "thorough_cmd": "python3 checker/check.py %s --thorough" % p["id"],
                            "technique": p["technique"], "level": p.get("level", "other"), "level_note": p["note"]})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed", len(m["not_applicable"]), "not applicable")
