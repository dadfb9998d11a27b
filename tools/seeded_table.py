#!/usr/bin/env python3
"""Rewrites the table of seeded bugs in DESIGN.md from seeded/*/meta.json and
tools/caught_by.json (bug: which checks report it, when not just its own)."""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = json.load(open(os.path.join(HERE, "tools/caught_by.json")))
t = "| bug | needs: effect | caught by |\n|---|---|---|\n"
for f in sorted(glob.glob(os.path.join(HERE, "seeded/*/meta.json"))):
    i = f.split("/")[-2]
    d = json.load(open(f))
    t += "| %s | %s: %s | %s |\n" % (i, d["needs"], d["what_it_breaks"], by.get(i, d["property"]))
p = os.path.join(HERE, "DESIGN.md")
s = open(p).read()
a = s.index("| bug | needs")
b = s.index("\n\n", a)
open(p, "w").write(s[:a] + t.rstrip() + s[b:])
