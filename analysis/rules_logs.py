"""C26: the canister's log export."""
from spec import *

L = "evm_minter::logs::"
BUF = {"Info": "INFO_BUF", "TraceHttp": "TRACE_HTTP_BUF", "Debug": "DEBUG_BUF"}
FIELDS = ("timestamp", "counter", "file", "line", "message")


def empty(x):
    """the empty text"""
    return pp(x).startswith("default(") or x in (("str", ""), ("bytes", ""), ("call", "new", ()))


def check_C26(ctx):
    sinks(ctx)
    export(ctx)
    sorting(ctx)
    fits(ctx)
    for t, rows in (("Priority", (("info", "Info"), ("trace_http", "TraceHttp"), ("debug", "Debug"))),
                    ("Sort", (("asc", "Ascending"), ("desc", "Descending")))):
        d = "<%s%s as core::str::traits::FromStr>::from_str" % (L, t)
        if d in ctx.p.bodies:
            e = ctx.run(d, tag="spec", argnames=["0"], exact=True, collapse=False)
            got = {}
            for s, v in e.rets:
                v = e.snap(s, v)
                if v.k == "agg" and v.a[1] == "Ok":
                    pos = [(a, x) for a, x in s.facts.items() if x is True and opname(a) == "eq"]
                    lits = [rawval(y) if kval(y) is None else kval(y) for a, _ in pos for y in a.a[1] if y.k == "k"]
                    lits = [y.a[1] for a, _ in pos for y in a.a[1] if y.k == "k" and y.a[0] == "str"]
                    low = all(any(opname(y) in ("to_lowercase", "to_ascii_lowercase") for y in a.a[1]) for a, _ in pos)
                    inner = dict(v.a[2])["0"]
                    if len(lits) == 1 and inner.k == "agg":
                        got[lits[0]] = (inner.a[1], low)
            if not got:
                ctx.inconclusive.append("C26.parse %s" % t)
            for lit, (var, low) in got.items():
                ctx.ob("C26.parse", "%s %s" % (t, lit), (lit, var) in rows, "%r is parsed as %s" % (lit, var), ctx.p.bodies[d]["span"])
            if got and len(got) == len(e.rets) - 1:
                for lit, var in rows:
                    ctx.ob("C26.parse", "%s accepts %s" % (t, lit), lit in got, "%r is not accepted" % lit, ctx.p.bodies[d]["span"])


def sinks(ctx):
    cn = Canon(ctx)
    for n in ("INFO", "DEBUG", "TRACE_HTTP"):
        d = L + n
        if d not in ctx.p.bodies:
            continue
        e = ctx.run(d, tag="log", argnames=[], exact=True, logs=True)
        for s, v in e.rets:
            v = e.snap(s, v)
            gs = {x for x in glob(v)}
            if gs:
                ctx.ob("C26.sink", n, gs == {L + n + "_BUF"}, "messages logged at %s go to %s" % (n, sorted(gs)), ctx.p.bodies[d]["span"])
            else:
                ctx.inconclusive.append("C26.sink %s: %s" % (n, show(v)[:200]))
    d = next((x for x in ctx.p.bodies if "PrintProxySink as ic_canister_log::Sink>::append" in x), None)
    if d:
        e = ctx.run(d, tag="log", argnames=["0", "1"], exact=True, logs=True, record_pure=True)
        for s, v in e.rets:
            t = pp(cn.c(e.snap(s, v)))
            ctx.ob("C26.sink", "append", t == "append(arg0.1, arg1)" or "append(" in t and vocab(cn.c(v), {"append"}) or t == "()" and any(
                "append" in ev.name for ev in e.events), "a logged entry is not appended to its buffer", ctx.p.bodies[d]["span"])


def glob(t):
    out = set()

    def w(x):
        if isinstance(x, tuple):
            for y in x:
                w(y)
        elif hasattr(x, "k"):
            if x.k == "g":
                out.add(x.a[0])
            elif x.k == "kpath":
                out.add(x.a[0])
            for y in x.a:
                w(y)
    w(t)
    return out


def export(ctx):
    d = L + "Log::push_logs"
    if d not in ctx.p.bodies:
        return
    sp = ctx.p.bodies[d]["span"]
    e = ctx.run(d, tag="log", argnames=["0", "1"], exact=True, collapse=False, prim_types=(), logs=True)
    if e.trunc:
        return
    ents = mk("fld", mk("p", "0"), "entries")
    seen = set()
    for ev in e.events:
        if ev.kind != "call" or ev.name not in ("op:push", "op:extend", "op:append") or base(ev.args[0]) is not ents:
            continue
        pr = ev.facts.get(mk("is", mk("p", "1")))
        v = ev.args[1]
        if v.k == "coll":
            vs = [a[1] for a in v.a[1] if isinstance(a, tuple)]
        else:
            vs = [v]
        for v in vs:
            if v.k != "agg" or not pr:
                ctx.inconclusive.append("C26.export: %s" % show(v)[:200])
                continue
            seen.add(pr)
            f = dict(v.a[2])
            gs = glob(v)
            ctx.ob("C26.export", pr + ": buffer", gs == {L + BUF[pr]}, "priority %s exports %s" % (pr, sorted(gs)), ev.span)
            got = fact_variant(ev.facts, f["priority"])
            ctx.ob("C26.export", pr + ": priority", got == pr, "entries of %s are labelled %s" % (pr, got), ev.span)
            for n in FIELDS:
                x = f[n]
                if opname(x) in ("to_string", "to_owned", "into", "from"):
                    x = x.a[1][0]
                if x.k == "fld":
                    src = x.a[0].a[0] if x.a[0].k == "elem" else None
                    if src is None or opname(src) not in ("export", "take", "skip", "step_by", "take_while", "skip_while"):
                        ctx.inconclusive.append("C26.export %s: %s" % (n, show(x)[:100]))
                        continue
                    ctx.ob("C26.export", "%s: all entries" % pr, opname(src) == "export", "only part of the buffer is exported: %s" % show(src)[:80], ev.span)
                    ctx.ob("C26.export", "%s: %s" % (pr, n), x.a[1] == n, "field %s is filled from %s" % (n, show(x)[:80]), ev.span)
                elif vocab(Canon(ctx).c(x), set()):
                    ctx.inconclusive.append("C26.export %s: %s" % (n, show(x)[:100]))
                else:
                    ctx.ob("C26.export", "%s: %s" % (pr, n), False, "field %s is filled with %s" % (n, show(x)[:80]), ev.span)
    # every buffer entry becomes an entry: each turn of the loop adds one
    for _, fid, h, s in e.backs:
        if any(opname(a) == "next" or a.k == "is" and opname(a.a[0]) == "next" for a in s.facts):
            added = any(ev.kind == "call" and ev.name == "op:push" and ev.key in s.trace for ev in e.events)
            ctx.ob("C26.export", "every entry", added, "an exported log entry is dropped", sp)
    if seen:
        for pr in BUF:
            ctx.ob("C26.export", pr + " exported", pr in seen, "priority %s exports nothing" % pr, sp)
    d = L + "Log::push_all"
    if d in ctx.p.bodies:
        e = ctx.run(d, tag="log", argnames=["0"], exact=True, collapse=False, prim_types=(), logs=True)
        bufs = set()
        for ev in e.events:
            if ev.kind == "call" and ev.name in ("op:push", "op:extend"):
                bufs |= glob(ev.args[1])
        ctx.ob("C26.export", "all", {L + b for b in BUF.values()} <= bufs or bool(e.trunc),
               "the full export lacks %s" % sorted({L + b for b in BUF.values()} - bufs), ctx.p.bodies[d]["span"])


def order(ctx, ev):
    """+1 ascending, -1 descending, None unknown for a sort event"""
    nm = ev.name.replace("op:", "")
    a, b = mk("p", "a"), mk("p", "b")
    if nm in ("sort_by", "sort_unstable_by"):
        r = ctx.run_closure(ev.args[1], [a, b])
        if len(r.rets) != 1:
            return None, None
        v = r.snap(*r.rets[0])
        sign = 1
        while opname(v) == "reverse":
            v, sign = v.a[1][0], -sign
        if opname(v) in ("cmp", "partial_cmp"):
            x, y = v.a[1][:2]
            if x.k == "fld" and y.k == "fld" and {x.a[0], y.a[0]} == {a, b} and x.a[1] == y.a[1]:
                return (sign if x.a[0] is a else -sign), x.a[1]
    if nm in ("sort_by_key", "sort_unstable_by_key", "sort_by_cached_key"):
        r = ctx.run_closure(ev.args[1], [a])
        if len(r.rets) == 1:
            v = r.snap(*r.rets[0])
            sign = 1
            if v.k == "agg" and v.a[0].endswith("Reverse"):
                v, sign = dict(v.a[2])["0"], -1
            if v.k == "fld" and v.a[0] is a:
                return sign, v.a[1]
    return None, None


def sorting(ctx):
    for fn, want in (("sort_asc", 1), ("sort_desc", -1), ("sort_logs", 0)):
        d = L + "Log::" + fn
        if d not in ctx.p.bodies:
            continue
        sp = ctx.p.bodies[d]["span"]
        e = ctx.run(d, tag="log", argnames=["0", "1"][:ctx.p.bodies[d]["argc"]], exact=True, collapse=False, prim_types=())
        evs = [ev for ev in e.events if ev.kind == "call" and ev.name.startswith("op:sort")]
        others = [ev for ev in e.events if ev.kind == "call" and ev not in evs]
        if not evs or others:
            ctx.inconclusive.append("C26.sort %s" % fn)
            continue
        for ev in evs:
            o, key = order(ctx, ev)
            w = want or {"Ascending": 1, "Descending": -1}.get(ev.facts.get(mk("is", mk("p", "1"))))
            if o is None or w is None:
                ctx.inconclusive.append("C26.sort %s: comparison" % fn)
                continue
            ctx.ob("C26.sort", "%s %s" % (fn, w), (o, key) == (w, "timestamp"), "sorts by %s %s" % (key, "ascending" if o == 1 else "descending"), ev.span)


def fits(ctx):
    d = L + "Log::serialize_logs"
    if d not in ctx.p.bodies:
        return
    sp = ctx.p.bodies[d]["span"]
    e = ctx.run(d, tag="log", argnames=["0", "1"], exact=True, collapse=False, prim_types=(), max_disjuncts=3000)
    if e.trunc:
        return
    cn = Canon(ctx)
    lim = mk("p", "1")
    phis = {}
    for _, fid, h, s in e.backs:
        for k, v in s.mem.items():
            if k[0] == "L":
                ph = mk("phi", fid, h, k[2])
                if ph in e.phi_in:
                    phis.setdefault(ph, []).append((s, v))

    def fits_fact(facts, v):
        ln = mk("call", "op:len", (v,))
        for a, x in facts.items():
            if not isinstance(x, bool):
                continue
            n = opname(a)
            if n in ("lt", "le", "gt", "ge") and len(a.a[1]) == 2:
                p, q = a.a[1]
                if opname(p) == "len" and p.a[1][0] is v and q is lim:
                    return (n, x) in (("lt", True), ("le", True), ("gt", False), ("ge", False)), (n, x)
                if opname(q) == "len" and q.a[1][0] is v and p is lim:
                    return (n, x) in (("lt", False), ("ge", True), ("gt", True), ("le", False)), (n, x)
        return None, None

    out = set()
    for s, v in e.rets:
        v = e.snap(s, v)
        if v.k == "phi":
            out.add(v)
            continue
        if empty(cn.c(v)):
            continue
        ok, how = fits_fact(s.facts, v)
        if ok is None and vocab(cn.c(v), {"to_string"}):
            ctx.inconclusive.append("C26.size: %s" % show(v)[:150])
        else:
            ctx.ob("C26.size", "direct", bool(ok), "returns %s without checking its length against the limit" % pp(cn.c(v))[:150], sp)
            if how:
                ctx.ob("C26.size", "direct: tight", how in (("gt", False), ("le", True), ("lt", False), ("ge", True)),
                       "a log that exactly fits is treated as too long", sp)
    for ph in out:
        for s, v in phis.get(ph, ()):
            v = e.snap(s, v)
            if v is ph or empty(cn.c(v)):
                continue
            ok, how = fits_fact(s.facts, v)
            if ok is None and v.k == "phi":
                ctx.inconclusive.append("C26.size: %s" % show(v)[:150])
                continue
            if how:
                ctx.ob("C26.size", "kept candidate: tight", how in (("gt", False), ("le", True), ("lt", False), ("ge", True)),
                       "a prefix that exactly fits is treated as too long", sp)
            ctx.ob("C26.size", "kept candidate", bool(ok), "keeps %s without checking that it fits" % pp(cn.c(v))[:200], sp)
            c = pp(cn.c(v))
            ctx.ob("C26.size", "prefix", "truncate(" in c or "[.." in c or "take(" in c, "keeps %s, which is not a prefix of the log" % c[:200], sp)
    # binary search for the longest prefix, when the code has that shape
    lo = [p for p in phis if any(kval(t) == 0 for t in e.phi_in[p])]
    hi = [p for p in phis if any(contains(t, lambda y: opname(y) == "len" and y.a[1][0].k == "fld" and y.a[1][0].a[1] == "entries")
                                 and t.k != "phi" and not contains(t, lambda y: y.k == "phi") for t in e.phi_in[p]) and p not in out]
    if len(lo) == 1 and len(hi) == 1:
        lo, hi = lo[0], hi[0]
        mid = "%s + div(-1*%s + %s, 2)" % (pp(cn.c(lo)), pp(cn.c(lo)), pp(cn.c(hi)))
        for p, allowed in ((lo, {"0", mid + " + 1"}), (hi, {mid, "len(arg0.entries)"})):
            for t in e.phi_in[p]:
                if t is p:
                    continue
                c = pp(cn.c(t))
                ctx.ob("C26.longest", "bound " + ("low" if p is lo else "high"), c in allowed, "the search bound becomes %s" % c, sp)
        for s, v in e.rets:
            if e.snap(s, v).k == "phi":
                done = any((opname(a), x) in (("lt", False), ("ge", True)) and tuple(a.a[1]) == (lo, hi) or
                           (opname(a), x) in (("gt", False), ("le", True)) and tuple(a.a[1]) == (hi, lo) or
                           (opname(a), x) in (("eq", True), ("ne", False)) and set(a.a[1]) == {lo, hi} for a, x in s.facts.items() if a.k == "call")
                ctx.ob("C26.longest", "runs to the end", done, "the search stops before the bounds meet", sp)
        # when the candidate fits, more is tried; when it does not, less
        for _, fid, h, s in e.backs:
            vlo, vhi = s.mem.get(("L", fid, lo.a[2])), s.mem.get(("L", fid, hi.a[2]))
            fit = None
            for a, x in s.facts.items():
                if opname(a) == "lt" and isinstance(x, bool) and a.a[1][0] is lim and contains(a, lambda t: opname(t) == "div"):
                    fit = not x
                elif opname(a) == "le" and isinstance(x, bool) and a.a[1][1] is lim and contains(a, lambda t: opname(t) == "div"):
                    fit = x
            if fit is None:
                continue
            ctx.ob("C26.longest", "fits=%s" % fit, (vlo is not lo) == fit and (vhi is not hi) == (not fit),
                   "the search goes the wrong way when the candidate %s" % ("fits" if fit else "does not fit"), sp)
    else:
        ctx.inconclusive.append("C26.longest: no binary search")
