#!/usr/bin/env python3
"""writes DESIGN.md from design.in.md and the lists of fixes and planted bugs"""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(os.path.join(V, "bin", "design.in.md")).read()
fixes = [l.strip().split(" ", 1) for l in open(os.path.join(V, "bin", "fix_props.txt")) if l.strip()]
s = s.replace("FIXES_TABLE", "\n".join("* %s: %s" % (p, t) for p, t in sorted(fixes)))
missed = {}
f = os.path.join(V, "bin", "missed.json")
if os.path.exists(f):
    missed = json.load(open(f))
rows = ["| id | property (the check which catches it) | what it needs | note |", "|---|---|---|---|"]
for m in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    d = json.load(open(m))
    i = os.path.basename(os.path.dirname(m))
    rows.append("| %s | %s | %s | %s |" % (i, d["property"], d["needs"], missed.get(i, "")))
s = s.replace("PLANTED_TABLE", "\n".join(rows))
open(os.path.join(V, "DESIGN.md"), "w").write(s)
