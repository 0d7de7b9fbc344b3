#!/usr/bin/env python3
"""Rewrites section 5's table in DESIGN.md from the output of tools/catch.sh: python3 tools/table.py CATCH.txt"""
import json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for l in open(sys.argv[1]):
    m = re.match(r"(\S+) (C\d+) (CAUGHT|MISSED) ?(.*?)(?: \((\d+) runs.*)?$", l.strip())
    if m: res[m[1]] = (m[3], m[4], m[5])
rows = ["| bug | check | what is broken | needs | caught as (runs until then) |", "|---|---|---|---|---|"]
for id in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    j = json.load(open(os.path.join(ROOT, "seeded", id, "meta.json")))
    r = res.get(id, ("not tried", "", ""))
    out = "%s (%s)" % (r[1], r[2]) if r[0] == "CAUGHT" else "**missed**" if r[0] == "MISSED" else r[0]
    rows.append("| %s | %s | %s | %s | %s |" % (id, j["property"], j["what_it_breaks"], j["needs"], out))
p = os.path.join(ROOT, "DESIGN.md")
s = open(p).read()
a, b = "<!-- table -->\n", "<!-- end of table -->\n"
i, k = s.index(a) + len(a), s.index(b)
open(p, "w").write(s[:i] + "\n".join(rows) + "\n" + s[k:])
