#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % i))
    rows.append("| %s | %s | %s | %s |" % (i, m["what_it_breaks"], m["needs"], m["property"]))
p = V + "/DESIGN.md"
lines = open(p).read().split("\n")
is_row = [bool(re.match(r"\| p\d\d-", l)) for l in lines]
first = is_row.index(True)
out = [l for l, r in zip(lines[:first], is_row) if not r] + rows + [l for l, r in zip(lines[first:], is_row[first:]) if not r]
open(p, "w").write("\n".join(out))
