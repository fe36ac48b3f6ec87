#!/usr/bin/env python3
"""rewrites the generated part of DESIGN.md (per property: what decides it) from analysis/props.py"""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "analysis"))
from props import PROPS, NOT_APPLICABLE  # noqa
import rules_tables as RT  # noqa
MARK = "<!-- generated by tools/design.py from analysis/props.py -->"
p = os.path.join(V, "DESIGN.md")
head = open(p).read().split(MARK)[0].rstrip()
S = "<!-- seeds -->"
rows = ["| seed | property | needs | breaks |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"], m["what_it_breaks"]))
parts = head.split(S)
head = S.join((parts[0], "\n" + "\n".join(rows) + "\n", parts[2]))
out = [head, "", MARK, "", "## Per property", ""]
for q in sorted(PROPS, key=lambda q: q["id"]):
    out.append("### %s %s" % (q["id"], q["title"]))
    out.append("")
    out.append("*Decided by* %s (`analysis/%s.py`). %s" % (q["technique"], q["module"], q["how"]))
    t = os.path.join(V, "analysis", "tables", q["id"] + ".json")
    if os.path.exists(t):
        rows = {n: len(r) for n, r in __import__("golden").load(q["id"]).items()}
        out.append("")
        out.append("*Recorded*: %d functions or tasks, %d rows." % (len(rows), sum(rows.values())))
    out.append("")
    out.append("*Why beyond the tests*: %s" % q["why"])
    out.append("")
out += ["## Not applicable", ""]
for q in NOT_APPLICABLE:
    out.append("- **%s %s** %s" % (q["id"], q["title"], q["reason"]))
out.append("")
open(p, "w").write("\n".join(out))
