#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md (all of them are caught by the check of their property)"""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | caught by | needs | breaks |", "|---|---|---|---|"]
for i in sorted(os.listdir(root + "/seeded")):
    d = json.load(open(f"{root}/seeded/{i}/meta.json"))
    rows.append(f"| {i} | {d['property']} | {d['needs']} | {d['what_it_breaks']} |")
s = open(root + "/DESIGN.md").read()
h = "## 7. Planted bugs and what catches them\n"
a = s.index(h) + len(h)
b = s.find("\n## ", a)
open(root + "/DESIGN.md", "w").write(s[:a] + "\nAll of these were applied and found with the quick check of their property (VERIF_SEED=1).\n\n" + "\n".join(rows) + "\n" + (s[b:] if b > 0 else ""))
