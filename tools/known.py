#!/usr/bin/env python3
"""append an entry: known.py fixed PROP COMMIT WHAT | known.py known PROP KEY WHAT"""
import json
import sys
p = "/verif/known_findings.json"
k = json.load(open(p))
s, prop, x, what = sys.argv[1:5]
if s == "fixed":
    k.append({"status": "fixed", "property": prop, "commit": x, "what": what, "line": f"fixed: property={prop} {x} {what}"})
else:
    k.append({"status": "known", "property": prop, "key": x, "what": what})
json.dump(k, open(p, "w"), indent=1)
