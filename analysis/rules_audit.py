"""Durable state changes only by applying recorded events."""
from core import *
from lib import *

VOLATILE = set("""pending_withdrawal_principals active_tasks last_observed_block_number last_observed_block_time ecdsa_public_key
last_transaction_price_estimate last_scraped_block_number""".split())
CONTAINERS = set("withdrawal_transactions native_balance erc20_balances".split())


def check(ctx):
    R = "C06.who-writes"
    W = writers(ctx)
    cut = ctx.fn("audit::apply_state_transition")
    ctx.need(cut is not None, R, "apply_state_transition", "function not found")
    if cut is None:
        return
    starts = ctx.entries() + [d for d, b in ctx.p.bodies.items() if b.get("impl_trait") == "core::ops::drop::Drop"]
    moved = ctx.fn("WithdrawalTransactions::reschedule_withdrawal_request")     # changes only the order of the queue
    reach = {x: ctx.reach(starts, cut=tuple(c for c in x if c)) for x in ((cut,), (cut, moved))}
    for d, ws in sorted(W.items()):
        for f in sorted({f for t, f in ws if not t.endswith("::State") or f not in VOLATILE | CONTAINERS}):
            r = reach[(cut, moved) if f == "pending_withdrawal_requests" else (cut,)]
            ctx.ob(R, "%s by %s" % (f, short(d)), d not in r,
                   "%s can be changed by %s without a recorded event: the change is lost when the canister is upgraded" % (f, d), ctx.p.bodies[d]["span"])
    ctx.floor(R, 8, "writes of durable state")
