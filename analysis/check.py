#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property of /repo's current source by static analysis."""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from core import Ctx, finish  # noqa
from registry import REG  # noqa
import rules_ident  # noqa


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    mod, level, technique, assumptions, explain = REG[pid]
    ctx = Ctx(pid, tier)
    try:
        getattr(importlib.import_module(mod), "check_" + pid)(ctx)
        rules_ident.check(ctx, pid)
    except Exception as x:  # an unexpected program shape is "no verdict", never an alarm
        ctx.inconclusive.append("rule evaluation stopped: %s" % x)
        if os.environ.get("VERIF_DEBUG"):
            traceback.print_exc()
    sys.exit(finish(ctx, level, technique, assumptions, explain))


main()
