#!/usr/bin/env python3
"""Rewrites the table of seeded bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| seeded bug | property and check that reports it | needs |", "|---|---|---|"]
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s |" % (d, m["property"], m["needs"]))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
s = re.sub(r"(<!-- seeded -->\n).*?(<!-- /seeded -->)", lambda x: x.group(1) + "\n".join(rows) + "\n" + x.group(2), s, flags=re.S)
open(p, "w").write(s)
