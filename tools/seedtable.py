#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | caught by | needs |", "|----|----|----|"]
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(f)); name = f.split("/")[-2]
    rows.append("| %s | %s | %s |" % (name, m["property"], m["needs"]))
p = root + "/DESIGN.md"; s = open(p).read()
i = s.find("@@TABLE@@"); i = s.find("| planted bug |") if i < 0 else i
open(p, "w").write(s[:i] + "\n".join(rows) + "\n")
