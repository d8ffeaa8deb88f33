#!/usr/bin/env python3
"""Rewrite the table of seeded bugs at the end of DESIGN.md from seeded/ and kill.py's log."""
import json, os, sys, re
from collections import defaultdict
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = sys.argv[1] if len(sys.argv) > 1 else "/tmp/kill.log"
last = {}
for l in open(log, errors="replace"):
    m = re.match(r"(\S+) (C\d\d) rc=(\S+) (CAUGHT|missed)", l)
    if m: last[m[1], m[2]] = m[4] == "CAUGHT"
caught = defaultdict(list)
for (i, p), c in sorted(last.items()):
    if c: caught[i].append(p)
rows = []
for i in sorted(os.listdir(ROOT + "/seeded")):
    m = json.load(open(f"{ROOT}/seeded/{i}/meta.json"))
    p = m["property"]
    by = sorted(caught[i], key=lambda x: (x != p, x))
    rows.append(f"| {i} | {p} | {m['what_it_breaks']} | {' '.join(by) or 'missed'} |")
s = open(ROOT + "/DESIGN.md").read()
mark = "<!-- table -->\n"
s = s[:s.index(mark) + len(mark)] + "| bug | property | what it breaks | caught by |\n|---|---|---|---|\n" + "\n".join(rows) + "\n"
open(ROOT + "/DESIGN.md", "w").write(s)
print(len(rows), sum(1 for r in rows if r.endswith("missed |")))
