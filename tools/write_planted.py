#!/usr/bin/env python3
"""Rewrites the table at the end of DESIGN.md from seeded/*/meta.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | caught by | what it needs |", "|-----|-----------|---------------|"]
for i in sorted(os.listdir(f"{here}/seeded")):
    m = json.load(open(f"{here}/seeded/{i}/meta.json"))
    rows.append(f"| {i} | {m['property']} quick | {m['needs']} |")
p = f"{here}/DESIGN.md"; s = open(p).read(); mark = "<!-- planted -->\n"
open(p, "w").write(s.split(mark)[0].rstrip() + "\n\n" + mark + "\n".join(rows) + "\n")
