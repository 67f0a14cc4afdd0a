#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from /verif/tools/claims.json."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
claims = json.load(open(os.path.join(H, "tools", "claims.json")))
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
for c in claims:
    m["checks"].append({
        "property": c["property"],
        "quick_cmd": "python3 check.py %s quick" % c["property"],
        "thorough_cmd": "python3 check.py %s thorough" % c["property"],
        "evidence_file": "evidence/%s.json" % c["property"],
        "technique": c["technique"],
        "level": c.get("level", "exploration"),
        "level_note": c["level_note"],
    })
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
