#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json.
With arguments `id:Cnn[,Cmm]` further checks that also catch a bug are recorded in tools/seeds_also.json."""
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(f"{ROOT}/seeded")):
    m = json.load(open(f"{ROOT}/seeded/{d}/meta.json"))
    rows.append((m["property"], d, m["what_it_breaks"].replace("|", "/")))
rows.sort()
t = ["| caught by | planted bug | what it breaks |", "|---|---|---|"]
t += [f"| {p} | `{d}` | {w} |" for p, d, w in rows]
f = f"{ROOT}/DESIGN.md"
s = open(f).read()
s = re.sub(r"(<!-- seeds -->\n).*?(<!-- /seeds -->)", lambda m: m[1] + "\n".join(t) + "\n" + m[2], s, flags=re.S)
open(f, "w").write(s)
print(len(rows), "planted bugs")
