#!/usr/bin/env python3
"""Development tool: rewrite section 6 of DESIGN.md from seeded/*/meta.json.
Bugs are listed as caught by their property's quick check once tools/seedbug.py said so;
MISSED lists the others."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {}
d = os.path.join(HERE, "seeded")
rows = []
for n in sorted(os.listdir(d)):
    m = json.load(open(os.path.join(d, n, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (n, m["what_it_breaks"], m["needs"], MISSED.get(n, m["property"] + " quick")))
p = os.path.join(HERE, "DESIGN.md")
s = open(p).read()
head = "## 6. Planted bugs"
i = s.find(head)
if i >= 0:
    s = s[:i]
s = s.rstrip() + "\n\n" + head + "\n\n| bug | what it does | needs | caught by |\n|---|---|---|---|\n" + "\n".join(rows) + "\n"
open(p, "w").write(s)
