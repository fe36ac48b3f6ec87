#!/usr/bin/env python3
"""cover.py [file-regex]: functions of the crates that no registered check enters (development aid)."""
import importlib
import os
import re
import sys
from concurrent.futures import ProcessPoolExecutor

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "analysis"))
from core import Ctx
import registry


def one(pid):
    c = Ctx(pid, "quick")
    try:
        getattr(importlib.import_module(registry.REG[pid][0]), "check_" + pid)(c)
    except Exception as x:
        print(pid, x)
    return set(map(str, c.entered))


if __name__ == "__main__":
    with ProcessPoolExecutor(8) as ex:
        seen = set().union(*ex.map(one, sorted(registry.REG)))
    c = Ctx("C01", "quick")
    rx = re.compile(sys.argv[1] if len(sys.argv) > 1 else ".")
    last = None
    for d, b in sorted(c.p.bodies.items(), key=lambda x: str(x[1].get("span"))):
        sp = str(b.get("span"))
        if not rx.search(sp) or d in seen or b.get("derived") or b["kind"] == "const" or re.search(r"candid::types|serde::|minicbor::|fmt::(Debug|Display)", d):
            continue
        print(sp[:70], d)
