"""C25: the client of the EVM RPC canister."""
from spec import *
from golden import check_golden

CLI = "evm_rpc_client::EvmRpcClient::<L>::"
BLD = "evm_rpc_client::EvmRpcClientBuilder::<L>::"
METHODS = {"eth_get_block_by_number": "eth_getBlockByNumber", "eth_get_logs": "eth_getLogs", "eth_fee_history": "eth_feeHistory",
           "eth_get_transaction_receipt": "eth_getTransactionReceipt", "eth_get_transaction_count": "eth_getTransactionCount",
           "eth_send_raw_transaction": "eth_sendRawTransaction"}
CALL = re.compile(r"call_with_payment128$|call_with_payment$|call_raw128$|call_raw$|api::call::call$")


def terms(x):
    """a configured client apart from its providers (C14) and its logger"""
    if isinstance(x, tuple):
        if x[:1] == ("pretty",):
            return ("any",)
        if len(x) == 2 and x[0] == "providers":
            return ("providers", ("any",))
        return tuple(map(terms, x))
    return x


GOLD = {"C25": [("RpcClient::from_state_" + x, dict(fmt=True, msgs=True, valpost=terms, opaque="^$")) for x in ("all_providers", "one_provider_public_node", "one_provider_ankr")]}


def walk_terms(t, f, seen=None):
    seen = set() if seen is None else seen
    if id(t) in seen:
        return
    seen.add(id(t))
    f(t)
    for x in t.a:
        _w(x, f, seen)


def _w(x, f, seen):
    if isinstance(x, tuple):
        for y in x:
            _w(y, f, seen)
    elif hasattr(x, "k") and hasattr(x, "a"):
        walk_terms(x, f, seen)


def collect(t, p):
    out = []
    walk_terms(t, lambda x: out.append(x) if p(x) else None)
    return out


def needed(t):
    """is t the maximum of the cycles the providers asked for?  True / False / None (some other shape)"""
    if t.k == "vf" and t.a[1] == "Some":
        t = t.a[0]
    n = opname(t)
    fields = {x.a[2] for x in collect(t, lambda x: x.k == "vf" and x.a[1] == "TooFewCycles")}
    if fields and "expected" not in fields:
        return False
    if n in ("min_of", "first", "last", "sum"):
        return False
    if n == "max_of":
        c = t.a[1][0]
        if c.k == "coll":
            for arm in c.a[1]:
                v = arm[1] if isinstance(arm, tuple) else arm
                if hasattr(v, "k") and (not (v.k == "vf" and v.a[1] == "TooFewCycles" and v.a[2] == "expected") or
                                        collect(v, lambda x: opname(x) in ("take", "skip", "step_by", "take_while", "skip_while"))):
                    return False
            if collect(c.a[0], lambda x: opname(x) in ("take", "skip", "step_by", "take_while", "nth")):
                return False
        return True
    return None


def check_C25(ctx):
    for fn, method in METHODS.items():
        client_call(ctx, fn, method)
    builder(ctx)
    check_golden(ctx, "C25.clients", GOLD["C25"], "C25")


def client_call(ctx, fn, method):
    d = CLI + fn
    if d not in ctx.p.bodies:
        ctx.inconclusive.append("C25: no function %s" % fn)
        return
    sp = ctx.p.bodies[d]["span"]
    e = ctx.run(d, tag="c25", argnames=["0", "1"], exact=True, collapse=False, prim_types=(), max_disjuncts=3000)
    if e.trunc:
        ctx.inconclusive.append("C25: %s: %s" % (fn, e.trunc))
        return
    cn = Canon(ctx)
    me = mk("p", "0")
    calls = [ev for ev in e.events if ev.kind == "suspend" and CALL.search(ev.name)]
    ctx.ob("C25.request", fn + ": calls the canister", bool(calls), "%s never calls the RPC canister" % fn, sp)
    cyc = set()
    for ev in calls:
        want = [pp(cn.c(mk("fld", me, "evm_canister_id"))), repr(method),
                "(){arg0.providers, arg0.override_rpc_config.%s, arg1}" % fn]
        for i, (w, what) in enumerate(zip(want, ("canister", "method", "arguments"))):
            c = cn.c(ev.args[i])
            if vocab(c, set()):
                ctx.inconclusive.append("C25.request %s %s: %s" % (fn, what, pp(c)[:200]))
            else:
                ctx.ob("C25.request", "%s: %s" % (fn, what), pp(c) == w, "%s sends %s %s instead of %s" % (fn, what, pp(c), w), ev.span)
        if len(ev.args) > 3:
            cyc.add(ev.args[3])
    # ---- attached cycles: start at the minimum, then at least double and at least what was asked for
    for c in cyc:
        ins = e.phi_in.get(c, {c}) if c.k == "phi" else {c}
        for t in ins:
            x = t
            if x is mk("fld", me, "min_attached_cycles"):
                ctx.ob("C25.cycles", fn + ": first attempt", True)
                continue
            ops = []
            if opname(x) == "max":
                ops = list(x.a[1])
            grow = [y for y in ops if opname(y) == "saturating_mul" and c in y.a[1]]
            ask = [y for y in ops if needed(y)]
            if len(ops) == 2 and len(grow) == 1 and len(ask) == 1:
                f = [kval(y) for y in grow[0].a[1] if kval(y) is not None]
                ctx.ob("C25.cycles", fn + ": next attempt", f == [2], "the attached cycles are multiplied by %s" % f, sp)
                continue
            cc = cn.c(x)
            if any(needed(y) is False for y in ops or [x]):
                ctx.ob("C25.cycles", fn + ": next attempt", False, "a retry attaches %s, not at least what the providers asked for" % pp(cc)[:300], sp)
                continue
            bad = vocab(cc, {"max_of", "min_of"})
            bad = {b for b in bad if "phi" not in b}
            if bad or any(needed(y) is None and opname(y) not in ("saturating_mul", "saturating_add", "wrapping_mul", "mul", "add") and y is not c
                          for y in (ops or [x])) and not needed(x) and opname(x) not in ("saturating_mul", "mul", "min", "wrapping_mul", "add"):
                ctx.inconclusive.append("C25.cycles %s: %s" % (fn, pp(cc)[:300]))
            else:
                ctx.ob("C25.cycles", fn + ": next attempt", False,
                       "a retry attaches %s, not at least twice the previous cycles and what the providers asked for" % pp(cc)[:300], sp)
        if c.k == "phi":
            ctx.ob("C25.cycles", fn + ": starts at the minimum", any(t is mk("fld", me, "min_attached_cycles") for t in ins),
                   "the first attempt does not attach the configured minimum", sp)
        elif calls and e.backs:
            ctx.ob("C25.cycles", fn + ": grows", not any(ev.key in s.trace for ev in calls for _, _, _, s in e.backs),
                   "every retry attaches the same cycles", sp)
    # ---- retries
    mx = mk("fld", me, "max_num_retries")
    loops = {(fid, h) for _, fid, h, s in e.backs if any(ev.key in s.trace for ev in calls)}
    for _, fid, h, s in e.backs:
        if (fid, h) not in loops:
            continue
        few = [x for x in s.facts.items() if x[0].k == "is" and (
            (needed(x[0].a[0]) and x[1] == "Some") or x[1] == "TooFewCycles")]
        anyfew = few or any(collect(a, lambda x: x.k in ("vf", "is") and "TooFewCycles" in x.a) for a in s.facts)
        ctx.ob("C25.retry", fn + ": only for lack of cycles", bool(anyfew),
               "the call is repeated under [%s]" % facts_txt(cn, s.facts), sp)
        bound = [(a, x) for a, x in s.facts.items() if contains(a, lambda y: y is mx)]
        ctx.ob("C25.retry", fn + ": bounded", bool(bound), "the call is repeated without a bound by the configured number of retries", sp)
        for a, x in bound:
            cnt = [y for y in a.a[1] if y is not mx] if a.k == "call" and len(a.a[1]) == 2 else []
            if len(cnt) == 1 and kval(cnt[0]) is not None:
                ctx.ob("C25.retry", fn + ": counted", False, "the retry counter never changes", sp)
            if len(cnt) == 1 and cnt[0].k == "phi" and isinstance(x, bool):
                lt = (opname(a), x, a.a[1][0] is cnt[0])
                ok = lt in (("lt", True, True), ("le", False, False), ("gt", True, False), ("ge", False, True), ("ne", True, True), ("ne", True, False), ("eq", False, True), ("eq", False, False))
                ctx.ob("C25.retry", fn + ": bound", ok, "retries while %s(%s) is %s" % (opname(a), "counter, limit" if lt[2] else "limit, counter", x), sp)
                ins = {pp(cn.c(t)) for t in e.phi_in.get(cnt[0], ())}
                step = {pp(cn.c(mk("call", "op:add", (cnt[0], mk("k", "int", 1))))), "0"}
                if "0" in ins and len(ins) == 2 and not ins == step:
                    ctx.inconclusive.append("C25.retry %s: counter %s" % (fn, sorted(ins)))
                elif len(ins) == 1:
                    ctx.ob("C25.retry", fn + ": counted", False, "the retry counter never changes", sp)
                else:
                    ctx.ob("C25.retry", fn + ": counted", ins == step, "the retry counter takes values %s" % sorted(ins), sp)
    # ---- result
    for s, v in e.rets:
        v = e.snap(s, v)
        few = [a for a, x in s.facts.items() if a.k == "is" and needed(a.a[0]) and x == "Some"]
        below = [a for a, x in s.facts.items() if opname(a) == "lt" and a.a[1][1] is mx and x is True]
        ctx.ob("C25.result", fn + ": retries before giving up", not (few and below), "gives up although more cycles were asked for and retries remain", sp)
        aw = collect(v, lambda x: x.k == "await")
        if not aw:
            ctx.ob("C25.result", fn + ": from the reply", v.k != "agg", "returns %s, which does not come from the reply" % pp(cn.c(v))[:200], sp)
            continue
        st = s.facts.get(mk("is", aw[0]))
        r0 = mk("fld", mk("vf", aw[0], "Ok", "0"), "0")
        if st == "Ok":
            if v is r0 or v is mk("vf", aw[0], "Ok", "0"):
                ctx.ob("C25.result", fn + ": reply", True)
            elif v.k == "agg":
                ctx.ob("C25.result", fn + ": reply", False, "the reply is replaced by %s" % pp(cn.c(v))[:200], sp)
            else:
                ctx.inconclusive.append("C25.result %s: %s" % (fn, pp(cn.c(v))[:200]))
        elif st == "Err":
            er = mk("vf", aw[0], "Err", "0")
            want = "Consistent{Err{HttpOutcallError{IcError{code: %s, message: %s}}}}" % (
                pp(cn.c(mk("fld", er, "0"))), pp(cn.c(mk("fld", er, "1"))))
            got = pp(cn.c(v))
            ctx.ob("C25.result", fn + ": rejection", got == want or v.k != "agg", "a rejected call is reported as %s" % got[:200], sp)


def facts_txt(cn, facts):
    return ", ".join("%s=%s" % (pp(cn.c(a))[:80], x) for a, x in facts.items())[:400]


BUILDER = {
    "with_providers": "-> $0 with {providers = $1}",
    "with_evm_canister_id": "-> $0 with {evm_canister_id = $1}",
    "with_override_rpc_config": "-> $0 with {override_rpc_config = $1}",
    "with_min_attached_cycles": "-> $0 with {min_attached_cycles = $1}",
    "with_max_num_retries": "-> $0 with {max_num_retries = $1}",
}


def builder(ctx):
    for n, sp in BUILDER.items():
        if BLD + n in ctx.p.bodies:
            check_table(ctx, "C25.builder", BLD + n, sp, name=n)
        else:
            ctx.inconclusive.append("C25.builder: no %s" % n)
    d = BLD + "build"
    if d in ctx.p.bodies:
        fs = [f["n"] for f in ctx.p.adts["evm_rpc_client::EvmRpcClient"]["variants"][0]["fields"]]
        check_table(ctx, "C25.builder", d, "-> EvmRpcClient{%s}" % ", ".join("%s = $0.%s" % (f, f) for f in fs), name="build")
