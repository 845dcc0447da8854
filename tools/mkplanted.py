#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and the
results collected while planting (tools/planted_results.json: {bug: {check: caught}})."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(ROOT + "/tools/planted_results.json"))
rows = []
for b in sorted(os.listdir(ROOT + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (ROOT, b)))
    r = res.get(b, {})
    yes = sorted(c for c, v in r.items() if v)
    no = sorted(c for c, v in r.items() if not v)
    rows.append("| %s | %s | %s | %s | %s |" % (b, m["property"], m["needs"].replace("|", "/"), " ".join(yes), " ".join(no)))
table = "\n".join(["| bug | breaks | needs | caught by | also tried, quiet |", "|---|---|---|---|---|"] + rows)
p = ROOT + "/DESIGN.md"
s = open(p).read()
a, b = "<!-- planted -->", "<!-- /planted -->"
i, j = s.index(a) + len(a), s.index(b)
open(p, "w").write(s[:i] + "\n" + table + "\n" + s[j:])
