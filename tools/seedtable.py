#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, glob, os, re
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
rows = []
for d in sorted(glob.glob("seeded/*")):
    m = json.load(open(d + "/meta.json"))
    rows.append("| %s | %s | %s |" % (os.path.basename(d), m["property"], m["needs"]))
t = open("DESIGN.md").read()
a = t.index("| bug | property | needs |")
e = t.find("\n\n", a)
t = t[:a] + "| bug | property | needs |\n|---|---|---|\n" + "\n".join(rows) + (t[e:] if e >= 0 else "\n")
t = re.sub(r"\d+ in `/verif/seeded`", "%d in `/verif/seeded`" % len(rows), t)
open("DESIGN.md", "w").write(t)
