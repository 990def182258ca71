#!/usr/bin/env python3
"""writes DESIGN.md from tools/DESIGN.in, filling in the table of planted bugs"""
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | check | what it breaks |", "|---|---|---|"]
for f in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    rows.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {m['what_it_breaks']} |")
s = open(os.path.join(ROOT, "tools", "DESIGN.in")).read().replace("@TABLE@", "\n".join(rows) + "\n")
open(os.path.join(ROOT, "DESIGN.md"), "w").write(s)
