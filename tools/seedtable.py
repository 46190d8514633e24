#!/usr/bin/env python3
"""rewrites the table of planted bugs in DESIGN.md: property -> bugs its quick check catches (from tools/seeds.py run)"""
import json, os, re
v = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = {}
for d in sorted(os.listdir(v + "/seeded")):
    by.setdefault(json.load(open("%s/seeded/%s/meta.json" % (v, d)))["property"], []).append(d)
rows = ["| check | planted bugs it catches |", "|---|---|"] + ["| %s | %s |" % (p, ", ".join(b)) for p, b in sorted(by.items())]
s = open(v + "/DESIGN.md").read()
s = re.sub(r"<!-- table -->.*<!-- end -->", lambda m: "<!-- table -->\n" + "\n".join(rows) + "\n<!-- end -->", s, flags=re.S)
open(v + "/DESIGN.md", "w").write(s)
