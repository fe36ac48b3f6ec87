#!/usr/bin/env python3
"""Extract the decision tables of a property's functions from /repo as they are now.

  mktables.py show <pid> [name-regex]   print them for review
  mktables.py write <pid>               write analysis/tables/<pid>.json (after review; never run by a check)
"""
import importlib
import json
import os
import re
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "analysis"))
import golden
from core import Ctx
import registry

mode, pid = sys.argv[1], sys.argv[2]
rx = re.compile(sys.argv[3]) if len(sys.argv) > 3 else None
mod = importlib.import_module(sys.argv[4] if len(sys.argv) > 4 else "rules_tables")
ctx = Ctx(pid, "quick")
out = {}
for name, opts in mod.GOLD[pid]:
    if rx and not rx.search(name):
        continue
    o = dict(opts)
    d, args, asy = golden.resolve_entry(ctx, name, o)
    o.pop("extra", None)
    if d is None:
        print("!!! %s not found" % name)
        continue
    rows, e = golden.extract(ctx, d, args, o)
    if rows is None:
        print("!!! %s truncated %s" % (name, e.trunc))
        continue
    print("## %s  (%s) %d rows" % (name, d, len(rows)))
    if mode == "show":
        print(golden.show_rows(rows))
    out[name] = golden.record(rows)
if mode == "write":
    os.makedirs(golden.TABLES, exist_ok=True)
    f = golden.table_file(pid)
    old = golden.load(pid) if os.path.exists(f) and rx and rx.pattern != "." else {}
    old.update(out)
    with open(f, "w") as h:
        json.dump(golden.pack(old), h, separators=(",", ":"), sort_keys=True)
    print("wrote", f, os.path.getsize(f))
