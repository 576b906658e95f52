#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(H + "/DESIGN.md").read()
rows = ["| bug | reported by | what it breaks | needs |", "|---|---|---|---|"]
for i in sorted(os.listdir(H + "/seeded")):
    m = json.load(open(f"{H}/seeded/{i}/meta.json"))
    rows.append(f"| {i} | {m.get('caught_by', m['property'])} | {m['what_it_breaks']} | {m['needs']} |")
b, e = "<!-- seeds -->", "<!-- /seeds -->"
s = s.replace("SEEDTABLE", f"{b}\n{e}")
s = s[:s.index(b)] + b + "\n" + "\n".join(rows) + "\n" + s[s.index(e):]
open(H + "/DESIGN.md", "w").write(s)
