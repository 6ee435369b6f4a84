#!/usr/bin/env python3
"""Fills the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % d))
    rows.append("| %s | %s | %s |" % (d, m["needs"].replace("|", "/").replace("\n", " "), m.get("caught_by", m["property"])))
t = open(V + "/DESIGN.md").read()
a, b = t.index("|---|---|---|\n") + len("|---|---|---|\n"), t.index("\n`tools/mutants.py`")
open(V + "/DESIGN.md", "w").write(t[:a] + "\n".join(rows) + "\n" + t[b:])
