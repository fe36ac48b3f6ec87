"""C01 at-most-once minting, C02 mint content, C03 accepted logs, C04 scraping coverage."""
from lib import *

FEES_SUB = "0000000000000000000000000000000000000000000000000000000000000fee"


def deposits_of(t):
    """the deposit-event term a value was taken from: value part of an element of events_to_mint"""
    for x in walk(t):
        if x.k == "elem":
            b = base(x.a[0])
            if b.k == "coll":
                continue
            if state_path(b) == "events_to_mint":
                return mk("fld", x, "1")
    return None


def proj_of(t, E, name, facts):
    """t is field `name` of the deposit event E (whichever kind it is)"""
    for fs, v in arms(t, facts):
        if not (v.k == "fld" and v.a[1] == name and v.a[0].k == "vf" and v.a[0].a[0] is E and v.a[0].a[2] == "0"):
            return False
    return True


def is_source(t, E, facts):
    for fs, v in arms(t, facts):
        if v.k == "fld" and v.a[1] == "0" and E.k == "fld" and v.a[0] is E.a[0]:
            continue
        h, l = field(v, "transaction_hash"), field(v, "log_index")
        if v.k != "agg" or h is None or not proj_of(h, E, "transaction_hash", fs) or not proj_of(l, E, "log_index", fs):
            return False
    return True


MAPS = ("events_to_mint", "minted_events", "invalid_events")


def expand(e, t, depth=0):
    """alternatives of a joined value"""
    if t.k == "phi" and t in e.phi_in and depth < 6:
        for x in e.phi_in[t]:
            yield from expand(e, x, depth + 1)
    elif t.k == "case":
        for _, v in t.a[0]:
            yield from expand(e, v, depth + 1)
    else:
        yield t


def deposit_transitions(ctx, R):
    trs = transitions(ctx)
    if not ctx.need(trs is not None, R + ".anchor", "transition", "the state transition function is gone"):
        return
    for i, t in enumerate(trs):
        name = str(t.var)
        for m in MAPS:
            val = at(t.final, m)
            for v in expand(t.e, val):
                b, ops = unroll(v)
                if b is not t.pre(m):
                    ctx.ob(R + ".map-replaced", "%s/%s" % (name, m), False,
                           "the %s event replaces the whole collection %s" % (name, m))
                    continue
                for op, a in ops:
                    inst = "%s/%s.%s" % (name, m, op)
                    if op == "insert":
                        K, V = a[0], a[1] if len(a) > 1 else None
                        if m == "events_to_mint":
                            for mm in MAPS:
                                ctx.ob(R + ".new-deposit-unknown", inst + "/" + mm, absent(t.facts, t.pre(mm), K),
                                       "a deposit is queued for minting without establishing that its source is absent from "
                                       "%s (a replayed log would be minted again)" % mm)
                            ev = None
                            for _, x in arms(V, t.facts):
                                ev = x.a[2][0][1] if x.k == "agg" and x.a[2] else None
                                okk = ev is not None and K.k == "agg" and \
                                    field(K, "transaction_hash") is mk("fld", ev, "transaction_hash") and \
                                    field(K, "log_index") is mk("fld", ev, "log_index")
                                ctx.ob(R + ".keyed-by-source", inst, okk,
                                       "a deposit is queued under %s, not under its own transaction hash and log index" % show(K))
                        elif m == "minted_events":
                            removed = any(o == "remove" and x[0] is K for o, x in t.ops("events_to_mint"))
                            ctx.ob(R + ".mint-removes", inst, removed,
                                   "a deposit is recorded as minted but stays in the queue of deposits to mint")
                            ctx.ob(R + ".mint-was-queued", inst, present(t.facts, t.pre("events_to_mint"), K),
                                   "a deposit is recorded as minted although it may not have been queued")
                            for mm in ("minted_events", "invalid_events"):
                                ctx.ob(R + ".mint-once", inst + "/" + mm, absent(t.facts, t.pre(mm), K),
                                       "a deposit already in %s can be recorded as minted" % mm)
                        else:
                            removed = any(o == "remove" and x[0] is K for o, x in t.ops("events_to_mint"))
                            ctx.ob(R + ".invalid-not-queued", inst,
                                   removed or absent(t.facts, t.pre("events_to_mint"), K),
                                   "a deposit is marked invalid but may stay queued for minting")
                    elif op == "remove" and m == "events_to_mint":
                        K = a[0]
                        kept = False
                        for mm in ("minted_events", "invalid_events"):
                            kept = kept or present(t.facts, t.pre(mm), K) or any(
                                o == "insert" and x[0] is K for o, x in t.ops(mm))
                        ctx.ob(R + ".dequeue-recorded", inst, kept,
                               "a deposit leaves the queue without being recorded as minted or invalid: a later re-scrape "
                               "mints it again, or it is lost")
                    else:
                        ctx.ob(R + ".permanent", inst, False,
                               "event %s performs '%s' on %s: the record that a deposit was handled must be permanent" % (
                                   name, op, m))
    return trs


def who_writes(ctx, R, fields, what, allow=()):
    """evented fields are mutated only inside the transition function"""
    W = writers(ctx)
    cut = ctx.fn("audit::apply_state_transition")
    starts = ctx.entries() + [d for d, b in ctx.p.bodies.items() if b.get("impl_trait") == "core::ops::drop::Drop"]
    reach = ctx.reach(starts, cut=(cut,))
    n = 0
    for d, ws in sorted(W.items()):
        hit = sorted({f for (_, f) in ws if f in fields})
        if not hit:
            continue
        n += 1
        path = d if d in reach and not any(d.endswith(a) for a in allow) else None
        ctx.ob(R, d, path is None,
               "%s is mutated outside the audited state transition (by %s, reachable from an endpoint or timer without going "
               "through an event): %s" % (", ".join(hit), d, what), ctx.p.bodies[d]["span"])
    return n


def res_ok(facts, r):
    """the awaited ledger call is known to have succeeded"""
    return is_var(facts, r, "Ok") and is_var(facts, mk("vf", r, "Ok", "0"), "Ok")


def res_err(facts, r):
    return is_var(facts, r, "Err") or (is_var(facts, r, "Ok") and is_var(facts, mk("vf", r, "Ok", "0"), "Err")) or \
        is_var(facts, mk("vf", r, "Ok", "0"), "Err")


def mint_runs(ctx):
    d = task(ctx, "Mint", "deposit::mint")
    if d is None:
        return None
    return ctx.run(d)


def user_mints(ctx, e):
    """awaited ledger transfers whose arguments come from a queued deposit"""
    out = []
    for ev, led, arg in ledger_awaits(e):
        to = field(arg, "to")
        E = deposits_of(to) if to is not None else None
        if E is None:
            E2 = deposits_of(arg)
            if E2 is not None:
                E = E2
        out.append((ev, led, arg, E))
    return out


def check_C01(ctx):
    R = "C01"
    deposit_transitions(ctx, R)
    who_writes(ctx, R + ".who-writes", set(MAPS), "the once-only bookkeeping of deposits")
    ctx.floor(R + ".new-deposit-unknown", 3, "event that queues a deposit")
    ctx.floor(R + ".mint-removes", 1, "event that records a mint")
    ctx.floor(R + ".dequeue-recorded", 2, "events that dequeue a deposit")
    ctx.floor(R + ".who-writes", 3, "functions writing the deposit maps")

    e = mint_runs(ctx)
    if not ctx.need(e is not None, R + ".anchor", "mint", "the minting task is gone"):
        return
    if e.trunc:
        return
    ms = [(ev, led, arg, E) for ev, led, arg, E in user_mints(ctx, e) if E is not None]
    bykey = {ev.key: (ev, E) for ev, led, arg, E in ms}
    apps = [(ev, p, fs) for ev, p, fs in appends(e) if (variant(p) or "").startswith("Minted")]
    fired = [ev for ev in e.events if ev.kind == "guard_fired"]
    for ev, led, arg, E in ms:
        inst = "transfer/%s" % (fact_variant(ev.facts, E) or "any")
        # task lock
        guards = [a for a in ev.alive if a.k == "agg" and short(a.a[0]) == "TimerGuard"]
        ctx.ob(R + ".task-lock", inst, bool(guards),
               "the ledger is asked to mint while no task lock is held: two minting passes can overlap", ev.span)
        acq = [x for x in e.events if x.kind == "call" and x.name == "op:insert" and x.places and
               state_path(x.places[0]) == "active_tasks" and x.key in ev.trace]
        ep = {state_epoch(x.places[0]) for x in acq}
        ctx.ob(R + ".read-under-lock", inst, bool(acq) and state_epoch(E) in ep,
               "the list of deposits to mint was read before the task lock was taken (a deposit minted meanwhile would be "
               "minted again)", ev.span)
        # quarantine guard
        sg = [a for a in ev.alive if a.k == "agg" and a.a[0] == "scopeguard::ScopeGuard"]
        good = False
        for g in sg:
            e2 = ctx.run_closure(field(g, "f"), [field(g, "value")])
            for _, p, fs in appends(e2):
                if variant(p) == "QuarantinedDeposit" and is_source(field(p, "event_source"), E, {**ev.facts, **fs}):
                    good = True
        ctx.ob(R + ".quarantine-armed", inst, good,
               "the ledger is asked to mint a deposit while no guard is armed that quarantines this deposit if the callback "
               "traps", ev.span)
        # one transfer per deposit and pass
        prev = [k for k in ev.trace if k in bykey and k != ev.key and bykey[k][1] is E]
        ctx.ob(R + ".one-transfer", inst, not prev, "the same queued deposit is transferred twice in one pass", ev.span)
    ctx.floor(R + ".task-lock", 2, "mint transfer per deposit kind")

    def transfers_in(trace, facts):
        return [(bykey[k][0], bykey[k][1]) for k in trace if k in bykey]

    for ev, p, fs in apps:
        inst = variant(p)
        src = field(p, "event_source")
        m = [(x, E) for x, E in transfers_in(ev.trace, fs) if is_source(src, E, fs)]
        ctx.ob(R + ".mint-recorded-for-transfer", inst, bool(m),
               "a deposit is recorded as minted without a completed ledger transfer for it on the path", ev.span)
        for x, E in m:
            ctx.ob(R + ".mint-recorded-on-success", inst, res_ok(fs, x.result),
                   "a deposit is recorded as minted although the ledger transfer may have failed", ev.span)
            bi = field(p, "mint_block_index")
            ctx.ob(R + ".mint-index", inst, contains(bi, lambda t: t is x.result),
                   "the recorded ledger block index is not the one returned by this deposit's transfer", ev.span)
    ctx.floor(R + ".mint-recorded-on-success", 2, "recorded mints per kind")

    def recorded(trace, facts, E):
        return any(a.key in trace and is_source(field(p, "event_source"), E, facts) for a, p, fs in apps)

    for ev in e.events:
        if ev.kind != "defuse" or deposits_of(ev.args[0]) is None:
            continue
        E = deposits_of(ev.args[0])
        ts = [x for x, E2 in transfers_in(ev.trace, ev.facts) if E2 is E]
        okk = recorded(ev.trace, ev.facts, E) or (not ts) or all(res_err(ev.facts, x.result) for x in ts)
        ctx.ob(R + ".defuse", "defuse/" + ("recorded" if recorded(ev.trace, ev.facts, E) else "failed"), okk,
               "the double-mint guard of a deposit is defused although the transfer may have succeeded and the mint is not "
               "recorded yet", ev.span)
    ctx.floor(R + ".defuse", 1, "defusing of the double-mint guard")
    ends = [s for _, _, _, s in e.backs] + [s for s, _ in e.rets]
    n = 0
    for s in ends:
        for x, E in transfers_in(s.trace, s.facts):
            if res_ok(s.facts, x.result):
                n += 1
                q = any(f.key in s.trace for f in fired)
                ctx.ob(R + ".success-recorded", "end-of-iteration", recorded(s.trace, s.facts, E) or q,
                       "an iteration can end after a successful mint without the mint being recorded: the next pass mints it "
                       "again", x.span)
    ctx.floor(R + ".success-recorded", 1, "iterations ending after a successful mint")


def check_C02(ctx):
    R = "C02"
    e = mint_runs(ctx)
    if not ctx.need(e is not None, R + ".anchor", "mint", "the minting task is gone") or e.trunc:
        return
    users = []
    for ev, led, arg, E in user_mints(ctx, e):
        to = field(arg, "to")
        owner, sub = field(to, "owner"), field(to, "subaccount")
        amount = field(arg, "amount")
        if E is None:
            continue
        kind = fact_variant(ev.facts, E)
        users.append((ev, E))
        for fs, _ in [(ev.facts, None)]:
            for kd in ([kind] if isinstance(kind, str) else ["Native", "Erc20"]):
                f2 = dict(fs)
                f2[mk("is", E)] = kd
                D = mk("vf", E, kd, "0")
                inst = kd
                L = resolve(e, led, f2)
                if kd == "Native":
                    okl = all(state_path(v) == "native_ledger_id" for _, v in arms(L, f2))
                else:
                    okl = True
                    for _, v in arms(L, f2):
                        g = v.a[0].a[0] if v.k == "fld" and v.a[1] == "0" and v.a[0].k == "vf" else v
                        okl = okl and g is not None and is_call(g, "get_entry_alt", "altkey") and \
                            state_path(g.a[1][0]) == "erc20_tokens" and g.a[1][1] is mk("fld", D, "erc20_contract_address")
                ctx.ob(R + ".ledger", inst, okl, "a %s deposit is minted on ledger %s" % (kd, show(L)), ev.span)
                ctx.ob(R + ".recipient", inst, proj_of(resolve(e, owner, f2), E, "principal", f2),
                       "a deposit is minted to %s, not to the principal named in the deposit" % show(owner), ev.span)
                S0 = mk("fld", D, "subaccount")
                for want in ("Some", "None"):
                    f3 = dict(f2)
                    f3[mk("is", S0)] = want
                    v = resolve(e, sub, f3)
                    if want == "None":
                        oks = v is NONE or v is S0
                    else:
                        oks = v is S0 or (variant(v) == "Some" and contains(v, lambda t: t is mk("vf", S0, "Some", "0")) and
                                          not contains(v, lambda t: t.k == "call" and short(t.a[0]) in ("to_le_bytes", "to_ne_bytes")))
                    ctx.ob(R + ".subaccount", inst + "/" + want, oks,
                           "a deposit naming subaccount %s is minted to subaccount %s" % (want, show(v)), ev.span)
                fee = None
                for t in walk(amount):
                    if t.k == "fld" and state_path(t) == "deposit_native_fee":
                        fee = t
                known = [f2[a] for a in f2 if a.k == "is" and state_path(a.a[0]) == "deposit_native_fee"]
                for want in (("Some", "None") if fee is not None else (None,)):
                    if fee is not None and known and not is_var(f2, fee, want):
                        continue
                    f3 = dict(f2)
                    if want:
                        f3[mk("is", fee)] = want
                    v = resolve(e, amount, f3)
                    val = mk("fld", D, "value")
                    if kd == "Native" and want == "Some":
                        oka = is_call(v, "sub") and v.a[1][0] is val and v.a[1][1] is mk("vf", fee, "Some", "0")
                    elif kd == "Native" and want is None:
                        # fee is decided on the path
                        oka = v is val and any(is_var(f2, a.a[0], "None") for a in f2
                                               if a.k == "is" and state_path(a.a[0]) == "deposit_native_fee")
                    else:
                        oka = v is val
                    ctx.ob(R + ".amount", inst + "/fee=" + str(want), oka,
                           "a %s deposit (deposit fee %s) is minted with amount %s" % (kd, want, show(v)), ev.span)
                memo = field(arg, "memo")
                okm = all(contains(memo, lambda t, n=n: proj_of(t, E, n, f2) if t.k in ("fld",) else False)
                          for n in ("from_address", "transaction_hash", "log_index"))
                ctx.ob(R + ".memo", inst, okm, "the memo of a mint does not carry the deposit's sender, transaction hash and "
                       "log index", ev.span)
                ctx.ob(R + ".from", inst, field(arg, "from_subaccount") is NONE,
                       "a mint is sent from a subaccount (that is a transfer, not a mint)", ev.span)
    ctx.floor(R + ".recipient", 2, "mint transfers per deposit kind")
    for ev, led, arg, E in user_mints(ctx, e):
        if E is not None:
            continue
        to = field(arg, "to")
        amount = field(arg, "amount")
        inst = "fee"
        fee_ok = amount.k == "vf" and state_path(amount.a[0]) == "deposit_native_fee"
        ctx.ob(R + ".fee-amount", inst, fee_ok, "a transfer not to the depositor carries %s instead of the deposit fee" % show(amount), ev.span)
        owner, sub = field(to, "owner"), field(to, "subaccount")
        ctx.ob(R + ".fee-account", inst, is_call(owner, "id") and variant(sub) == "Some" and FEES_SUB in str(sub.a[2][0][1].a),
               "the deposit fee is minted to %s" % show(to), ev.span)
        ctx.ob(R + ".fee-ledger", inst, state_path(led) == "native_ledger_id", "the deposit fee is minted on %s" % show(led), ev.span)
        prev = [(x, E2) for x, E2 in users if x.key in ev.trace]
        ctx.ob(R + ".fee-after-user", inst, bool(prev) and all(res_ok(ev.facts, x.result) for x, _ in prev),
               "the deposit fee is minted although the depositor's own mint did not succeed on this path", ev.span)
        ctx.ob(R + ".fee-native", inst, bool(prev) and all(fact_variant(ev.facts, E2) == "Native" for _, E2 in prev),
               "a native fee is minted for a deposit that is not native (nothing was deducted from it)", ev.span)
