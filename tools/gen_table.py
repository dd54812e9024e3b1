#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
head = s.split("## Table of planted bugs")[0].rstrip()
rows = []
for m in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    d = json.load(open(m))
    rows.append((d["property"], os.path.basename(os.path.dirname(m)), d["needs"], d["what_it_breaks"]))
rows.sort()
out = ["", "", "## Table of planted bugs", "",
       "Each is caught by the quick check of its property (`tools/plant.py check ID`).", "",
       "| property | id | needs | breaks |", "|---|---|---|---|"]
out += ["| " + " | ".join(x.replace("|", "\\|") for x in r) + " |" for r in rows]
open(p, "w").write(head + "\n".join(out) + "\n")
