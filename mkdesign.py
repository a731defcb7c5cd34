#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
p = os.path.join(here, "DESIGN.md")
s = open(p).read()
head = "| planted | property | needs | caught by |\n|---|---|---|---|\n"
s = s[:s.index("| planted |")] + head
for b in sorted(os.listdir(os.path.join(here, "seeded"))):
    m = json.load(open(os.path.join(here, "seeded", b, "meta.json")))
    s += "| %s | %s | %s | %s |\n" % (b, m["property"], m["needs"], m.get("caught_by", m["property"]))
open(p, "w").write(s)
