#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md section 5 (and rewrites it there)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = json.load(open(f"{V}/tools/seeded_missed.json"))
rows = ["| change | needs | caught by | check strengthened for it |", "|---|---|---|---|"]
for i in sorted(os.listdir(f"{V}/seeded")):
    m = json.load(open(f"{V}/seeded/{i}/meta.json"))
    rows.append(f"| {i} | {m['needs']} | {m['property']} | {missed.get(i, '')} |")
t = "\n".join(rows)
p = f"{V}/DESIGN.md"
s = open(p).read()
s = s.split("<!-- seeded table -->")[0].rstrip() + "\n\n<!-- seeded table -->\n" + t + "\n"
open(p, "w").write(s)
