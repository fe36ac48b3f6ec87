"""Properties decided by recorded tables: bookkeeping per event (rules_state) and task/endpoint flows (rules_flow)."""
import rules_state
import rules_flow
import rules_more
import rules_guard
import rules_iface
import rules_audit
import rules_types
from golden import check_golden

GOLD = {}
for m in (rules_state, rules_flow, rules_more):
    for k, v in m.GOLD.items():
        GOLD.setdefault(k, []).extend(v)


EXTRA = {"C16": [rules_guard.check], "C06": [rules_audit.check],
         "C34": [rules_iface.check_lsm], "C32": [lambda ctx: rules_types.derived(ctx, "C32", "::memo::", 9)]}


def _check(pid):
    def run(ctx):
        for f in EXTRA.get(pid, ()):
            f(ctx)
        check_golden(ctx, pid + ".table", GOLD[pid], pid)
    return run


for _p in GOLD:
    globals()["check_" + _p] = _check(_p)
