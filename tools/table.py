#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json, and the table
of repaired defects from known_findings.json."""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(HERE, "DESIGN.md")
s = open(p).read()
rows = ["| bug | property | needs |", "|---|---|---|"]
for d in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.load(open(os.path.join(HERE, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s |" % (d, m["property"], m["needs"]))
s = re.sub(r"\| bug \| property \| needs \|\n(\|.*\n)+", lambda _: "\n".join(rows) + "\n", s)
rows = ["| property | commit | what failed |", "|---|---|---|"]
n = 0
for f in json.load(open(os.path.join(HERE, "known_findings.json")))["fixed"]:
    k = re.match(r"fixed: property=(\S+) (\S+) (.*)", f)
    rows.append("| %s | %s | %s |" % k.groups())
    n += 1
s = re.sub(r"\| property \| commit \| what failed \|\n(\|.*\n)+",
           lambda _: "\n".join(rows) + "\n", s)
s = re.sub(r"\d+ `fix:` commits", "%d `fix:` commits" % n, s)
open(p, "w").write(s)
