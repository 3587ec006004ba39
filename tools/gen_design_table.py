#!/usr/bin/env python3
"""Rewrites the planted-bug table of DESIGN.md from seeded/*/meta.json and tools/catch.json (which checks caught what)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c = json.load(open(V + "/tools/catch.json")) if os.path.exists(V + "/tools/catch.json") else {}
rows = ["| planted bug | needs | caught by |", "|---|---|---|"]
for b in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, b)))
    by = c.get(b)
    rows.append("| %s | %s | %s |" % (b, m["needs"].replace("|", "/").replace("\n", " "), " ".join(by) if by else m["property"]))
d = open(V + "/DESIGN.md").read()
a, z = "<!-- seeded:begin -->", "<!-- seeded:end -->"
i, j = d.index(a) + len(a), d.index(z)
open(V + "/DESIGN.md", "w").write(d[:i] + "\n" + "\n".join(rows) + "\n" + d[j:])
