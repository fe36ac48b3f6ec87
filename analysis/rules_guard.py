"""Tasks and withdrawals hold their guard across every await; the steps they protect are reached only through them."""
import re
from core import *
from engine import short
from pure import opname
from golden import cut_re
from rules_flow import BATCHES, FEE, LC

TASK = "TimerGuard"
# function -> (guard, argument of the guard, what is cut to keep the run small)
GUARDED = [
    ("deposit::mint", ("task", "Mint"), ()),
    ("deposit::scrape_logs", ("task", "ScrapLogs"), ("deposit::update_last_observed_block_number", "deposit::scrape_until_block")),
    ("withdraw::process_retrieve_tokens_requests", ("task", "RetrieveEth"), BATCHES + (FEE,)),
    ("withdraw::process_reimbursement", ("task", "Reimbursement"), ()),
    ("tx::" + FEE, ("task", "RefreshGasFeeEstimate"), ()),
    ("main_bin::withdraw_native_token", ("caller",), (FEE, LC + "burn_from", LC + "trasnfer_withdrawal_fee", LC + "refund_withdrawal_fee")),
    ("main_bin::withdraw_erc20", ("caller",), (FEE, LC + "burn_from", LC + "trasnfer_withdrawal_fee", LC + "refund_withdrawal_fee")),
]
# step -> the guarded functions it may be reached through
STEPS = [("deposit::scrape_until_block", ("deposit::scrape_logs",)), ("deposit::scrape_block_range", ("deposit::scrape_logs",))] + [
    (b, ("withdraw::process_retrieve_tokens_requests",)) for b in BATCHES] + [
    (LC + x, ("main_bin::withdraw_native_token", "main_bin::withdraw_erc20")) for x in ("burn_from", "trasnfer_withdrawal_fee", "refund_withdrawal_fee")]


def right(g, want):
    if g.k != "agg":
        return False
    if want[0] == "task":
        t = field(g, "task")
        return t is not None and g.a[0].endswith("::TimerGuard") and t.k == "agg" and t.a[1] == want[1]
    p = field(g, "principal")
    return p is not None and g.a[0].endswith("guard::Guard") and opname(p) == "caller"


def check(ctx):
    names = {}
    for fn, want, cut in GUARDED:
        d = ctx.fn(fn)
        if d is None:
            ctx.inconclusive.append("C16.held: %s not found" % fn)
            continue
        names[fn] = d
        lost = [x for x in cut if ctx.fn(x) is None]
        opq = "|".join(x for x in (RPC_OPAQUE.pattern, r"audit::apply_state_transition$", cut_re(cut)) if x)
        e = ctx.run(d, tag="C16", exact=True, max_disjuncts=6000, opaque_re=re.compile(opq))
        sus = [ev for ev in e.events if ev.kind == "suspend"]
        if not sus:
            ctx.inconclusive.append("C16.held: no await analysed in %s%s" % (fn, " (%s not found)" % lost if lost else ""))
            continue
        for ev in sus:
            good = any(right(g, want) for g in ev.alive)
            any_guard = any(g.k == "agg" and "Guard" in g.a[0] and "ScopeGuard" not in g.a[0] for g in ev.alive)
            what = "%s guard" % want[1] if want[0] == "task" else "per-caller withdrawal guard"
            ctx.ob("C16.held", "%s awaits %s" % (fn, short(ev.name)), good,
                   "%s awaits %s without holding the %s (%s)" % (fn, short(ev.name), what, "holds a different guard" if any_guard else "no guard is alive"), ev.span)
    for step, via in STEPS:
        d = ctx.fn(step)
        if d is None or any(v not in names for v in via):
            ctx.inconclusive.append("C16.only: %s not found" % step)
            continue
        cut = {names[v] for v in via}
        seen = ctx.reach(ctx.entries(), cut=cut)
        ctx.ob("C16.only", step, d not in seen, "%s is reachable from an entry point without passing through %s" % (step, " or ".join(via)),
               ctx.p.bodies[d]["span"])
