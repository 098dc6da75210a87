#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in glob.glob(V + "/seeded/*/meta.json"):
    m = json.load(open(f))
    rows.append((m["property"], os.path.basename(os.path.dirname(f)), m["needs"], m.get("caught", "C")))
rows.sort()
t = "| property | planted bug | needs |\n|-|-|-|\n" + "".join("| %s | %s | %s |\n" % r[:3] for r in rows)
p = V + "/DESIGN.md"
s = open(p).read()
a, b = "<!-- bugs -->\n", "<!-- /bugs -->\n"
s = s[:s.index(a) + len(a)] + t + s[s.index(b):]
open(p, "w").write(s)
