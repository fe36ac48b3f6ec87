#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from analysis/props.py"""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "analysis"))
from props import PROPS  # noqa
NA = getattr(__import__("props"), "NOT_APPLICABLE", [])
PR = sorted(PROPS, key=lambda p: p["id"])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PR + sorted(NA, key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(dict(
            id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
            why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=p["mechanism"]))) + "\n")
man = dict(
    version=1, setup_cmd="python3 analysis/facts.py",
    checks=[dict(
        property=p["id"], quick_cmd="python3 analysis/check.py %s quick" % p["id"],
        thorough_cmd="python3 analysis/check.py %s thorough" % p["id"],
        evidence_file="evidence/%s.json" % p["id"], technique=p["technique"], level="other",
        level_note="All paths of the analysed functions, decided on the type-checked MIR of the current tree without executing it. " + p["how"] +
                   " Trusts: " + "; ".join(p["assume"]) + ". Program shapes outside the analysed vocabulary are reported as inconclusive in the evidence, not as violations.")
        for p in PR],
    not_applicable=[dict(property=p["id"], reason=p["reason"]) for p in NA],
    notes="Static analysis only: the deciding step reads /repo's current source through rustc's type-checked MIR. See DESIGN.md.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
