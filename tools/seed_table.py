#!/usr/bin/env python3
"""Rewrites the table of planted changes at the end of DESIGN.md from seeded/*/meta.json.
What else than its own check catches a change is noted in OTHERS (found by plant.py with ALSO=)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = set()
rows = ["| change | check that catches it | manifests with | breaks |", "|---|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded")):
    p = V + "/seeded/" + d + "/meta.json"
    if os.path.exists(p):
        m = json.load(open(p))
        rows.append("| %s | %s | %s | %s |" % (d, "none yet" if d in MISSED else m["property"], m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/")))
s = open(V + "/DESIGN.md").read()
h = "## Planted changes and what catches them\n"
a, b = s.split(h)
intro = b.split("| change")[0]
open(V + "/DESIGN.md", "w").write(a + h + intro + "\n".join(rows) + "\n")
