#!/usr/bin/env python3
"""Writes MANIFEST.json from the rule modules present and the property list."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = json.load(open(HERE + "/tools/not_applicable.json"))
TECH = json.load(open(HERE + "/tools/technique.json"))
props = [json.loads(l)["id"] for l in open(HERE + "/properties.jsonl")]
checks, na = [], []
for p in props:
    if os.path.exists(f"{HERE}/rules/{p.lower()}.py"):
        checks.append({"property": p, "quick_cmd": f"python3 check.py {p}", "thorough_cmd": f"python3 check.py {p}",
                       "technique": TECH.get(p, TECH["*"])[0], "level": "other", "level_note": TECH.get(p, TECH["*"])[1]})
    else:
        na.append({"property": p, "reason": NA.get(p, "no static check built yet")})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
           "notes": "static analysis only; see DESIGN.md"}, open(HERE + "/MANIFEST.json", "w"), indent=1)
