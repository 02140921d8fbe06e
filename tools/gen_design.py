#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import glob, json, os
here = os.path.dirname(os.path.abspath(__file__))
p = os.path.join(here, "..", "DESIGN.md")
s = open(p).read()
mark = "<!-- table -->"
assert mark in s
rows = ["| change | caught by | needs |", "|---|---|---|"]
caught = json.load(open(os.path.join(here, "caught.json"))) if os.path.exists(os.path.join(here, "caught.json")) else {}
for d in sorted(glob.glob(os.path.join(here, "..", "seeded", "*"))):
    m = json.load(open(d + "/meta.json"))
    i = os.path.basename(d)
    rows.append("| %s | %s | %s |" % (i, caught.get(i, m["property"]), " ".join(m["needs"].split()).replace("|", "/")))
open(p, "w").write(s[:s.index(mark) + len(mark)] + "\n" + "\n".join(rows) + "\n")
