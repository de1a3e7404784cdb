#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for i in sorted(os.listdir(root + "/seeded"), key=lambda i: (i[1:3], i)):
    m = json.load(open(root + "/seeded/%s/meta.json" % i))
    rows.append("| %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/")))
p = root + "/DESIGN.md"
lines = open(p).read().split("\n")
a = lines.index("| bug | property | needs |")
b = a + 2
while b < len(lines) and lines[b].startswith("|"):
    b += 1
open(p, "w").write("\n".join(lines[:a + 2] + rows + lines[b:]))
