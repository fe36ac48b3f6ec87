"""C03 accepted logs, C04 scraping coverage, C05 confirmation depth."""
import os

from lib import *
from pure import *
from rules_deposit import res_ok


def solidity_event(ctx, name):
    """(signature, [(type, indexed, name)]) of an event in the helper contract's source"""
    root = os.environ.get("VERIF_REPO", "/repo")
    p = os.path.join(root, "evm_helper_contract/src/Deposit.sol")
    if not os.path.exists(p):
        return None
    src = re.sub(r"//[^\n]*|/\*.*?\*/", "", open(p).read(), flags=re.S)
    m = re.search(r"\bevent\s+%s\s*\(([^)]*)\)" % name, src)
    if not m:
        return None
    ps = []
    for x in m.group(1).split(","):
        w = x.split()
        ps.append((w[0], "indexed" in w[1:-1], w[-1]))
    return "%s(%s)" % (name, ",".join(t for t, _, _ in ps)), ps


def parser_fn(ctx):
    c = [d for d, b in ctx.p.bodies.items() if b.get("kind") == "fn" and b["argc"] == 1 and
         b["locals"][1]["ty"].endswith("LogEntry") and "ReceivedDepositEvent," in b["locals"][0]["ty"] and
         b["locals"][0]["ty"].startswith(("core::result::Result", "std::result::Result"))]
    pl = [d for d in c if short(d.split(">::")[-1]) == "parse_log"]
    return (pl or c or [None])[0]


def tail12(t):
    """the word of which t is everything after the first 12 bytes"""
    if opname(t) == "split_r" and kval(t.a[1][1]) == 12:
        return t.a[1][0]
    if opname(t) == "slice" and short(t.a[1][1].a[0] if t.a[1][1].k == "agg" else "") == "RangeFrom" and \
            kval(field(t.a[1][1], "start")) == 12:
        return t.a[1][0]
    return None


def head12(t):
    """the word of which t is the first 12 bytes"""
    if opname(t) == "split_l" and kval(t.a[1][1]) == 12:
        return t.a[1][0]
    if opname(t) == "slice" and t.a[1][1].k == "agg" and short(t.a[1][1].a[0]) in ("RangeTo", "Range") and \
            kval(field(t.a[1][1], "end")) == 12 and (short(t.a[1][1].a[0]) == "RangeTo" or kval(field(t.a[1][1], "start")) == 0):
        return t.a[1][0]
    return None


def topic_i(t, entry):
    """index i if t is the 32 bytes of topic i of the log entry"""
    if t.k == "fld" and t.a[1] == "0":
        t = t.a[0]
    if t.k == "vf" and t.a[1] == "Some" and opname(t.a[0]) in ("get", "first"):
        g = t.a[0]
        if g.a[1][0] is mk("fld", entry, "topics"):
            return 0 if opname(g) == "first" else kval(g.a[1][1])
    if opname(t) == "index" and t.a[1][0] is mk("fld", entry, "topics"):
        return kval(t.a[1][1])
    return None


def word_i(e, t, entry):
    """index i if t is the i-th 32-byte word of the log's data"""
    data = mk("fld", mk("fld", entry, "data"), "0")
    if t.k == "vf" and t.a[1] == "Some" and opname(t.a[0]) == "get":
        b, i = t.a[0].a[1]
        i = kval(i)
        seen = set()

        def from_chunks(x, n=0):
            if n > 8 or x in seen:
                return False
            seen.add(x)
            for y in walk(x):
                if opname(y) in ("chunks_exact", "chunks") and y.a[1][0] is data and kval(y.a[1][1]) == 32:
                    return True
                if y.k == "phi" and y in e.phi_in and any(from_chunks(z, n + 1) for z in e.phi_in[y]):
                    return True
            return False
        if from_chunks(b):
            return i
    for y in walk(t):
        if opname(y) in ("slice", "index") and y.a[1][0] is data and y.a[1][1].k == "agg":
            s, en = field(y.a[1][1], "start"), field(y.a[1][1], "end")
            s = kval(s) if s is not None else 0
            en = kval(en) if en is not None else 64
            if s is not None and en is not None and en - s == 32 and s % 32 == 0:
                return s // 32
    return None


def check_C03(ctx):
    R = "C03"
    d = parser_fn(ctx)
    if not ctx.need(d is not None, R + ".anchor", "parser", "no function turns a log entry into a deposit event"):
        return
    e, tab = ctx.table(d)
    if e.trunc:
        return
    if e.blind:
        ctx.blind = re.compile(r"\.(value-from_address|padding-from_address|subaccount)$")
    entry = mk("p", ctx.p.bodies[d]["locals"][1]["n"] or "entry")
    F = lambda n: mk("fld", entry, n)
    topics, data = F("topics"), mk("fld", F("data"), "0")
    sol = solidity_event(ctx, "DepositLog")
    oks = [(f, v.a[2][0][1]) for f, v, s in tab if variant(v) == "Ok"]
    errs = [(f, v.a[2][0][1]) for f, v, s in tab if variant(v) == "Err"]
    if not ctx.need(bool(oks), R + ".anchor", "accepting path", "no accepting path in the log parser"):
        return
    if sol:
        topic0 = keccak256(sol[0].encode())
        idx = [n for t, i, n in sol[1] if i]
        dat = [n for t, i, n in sol[1] if not i]
    else:
        topic0 = "deaddf8708b62ae1bf8ec4693b523254aa961b2da6bc5be57f3188ee784d6275"
        idx, dat = ["token", "amount", "principal"], ["from_address", "subaccount"]
    TI = {n: i + 1 for i, n in enumerate(idx)}
    WI = {n: i for i, n in enumerate(dat)}
    length = lambda t: mk("call", "op:len", (t,))

    def lens(facts, t):
        best = None
        for a in facts:
            for x in walk(a):
                if opname(x) == "len" and x.a[1][0] is t:
                    best = x
        return best
    # names the position of every condition the parser may impose
    for n, (f, D) in enumerate(oks):
        kind = variant(D)
        E = D.a[2][0][1] if D.k == "agg" and D.a[2] else None
        if E is None or E.k != "agg":
            ctx.inconclusive.append("deposit event of unknown shape")
            continue
        tag = kind

        def ob(rule, good, msg):
            ctx.ob(R + "." + rule, tag, good, msg, ctx.p.bodies[d]["span"])
        for fld_ in ("block_hash", "block_number", "transaction_hash", "transaction_index", "log_index"):
            ctx.ob(R + ".mined", tag + "/" + fld_, is_var(f, F(fld_), "Some"),
                   "a log whose %s is missing (a pending log) is accepted as a deposit" % fld_)
        ob("not-removed", f.get(F("removed")) is False, "a log marked as removed by a reorganisation is accepted as a deposit")
        lt = lens(f, topics)
        if lt is None:
            ob("topic-count", False, "the number of topics is not checked")
        else:
            lo, hi, _ = interval(f, lt)
            ob("topic-count", (lo, hi) == (1 + len(idx),) * 2, "logs with %s..%s topics are accepted (event has %d)" % (
                lo, hi, 1 + len(idx)))
        t0 = []
        for a, v in f.items():
            if opname(a) == "eq" and v is True:
                for x, y in (a.a[1], a.a[1][::-1]):
                    x2 = x
                    r = None
                    z = y.a[2][0][1] if y.k == "agg" and variant(y) == "Some" and y.a[2] else y
                    r = rawval(z)
                    if r is None or len(r) != 64:
                        continue
                    src = topic_i(x, entry)
                    if src is None and opname(x) == "first" and x.a[1][0] is topics:
                        src = 0
                    if src is None and opname(x) == "get" and x.a[1][0] is topics:
                        src = kval(x.a[1][1])
                    if src is not None:
                        t0.append((src, r))
        if any(contains(a, lambda x: opname(x) == "first" and x.a[1][0] is topics or topic_i(x, entry) == 0) for a in f) or not t0:
            ob("topic0", (0, topic0) in t0,
               "the event signature topic is not required to equal keccak256 of the helper contract's DepositLog event")
        ld = lens(f, data)
        if ld is None:
            ob("data-length", False, "the length of the log data is not checked")
        else:
            lo, hi, _ = interval(f, ld)
            good = (lo, hi) == (32 * len(dat),) * 2
            for a, v in f.items():
                if opname(a) == "eq" and v is True and ld in a.a[1]:
                    o = a.a[1][0] if a.a[1][1] is ld else a.a[1][1]
                    if opname(o) == "mul" and any(kval(x) == 32 for x in o.a[1]):
                        good = True
            ob("data-length", good, "log data of a length other than %d bytes is accepted" % (32 * len(dat)))
        # ---- values
        g = lambda n: field(E, n)
        for nm, src in (("transaction_hash", "transaction_hash"), ("block_number", "block_number"), ("log_index", "log_index")):
            ob("value-" + nm, g(nm) is mk("vf", F(src), "Some", "0"), "%s of the deposit is %s" % (nm, show(g(nm))[:150]))
        v = g("value")
        ob("value-amount", opname(v) == "from_be_bytes" and topic_i(v.a[1][0], entry) == TI["amount"],
           "the deposited amount is decoded as %s, not as the big-endian amount topic" % show(v)[:150])

        def addr(t, pos, what):
            if t.k == "agg" and len(t.a[2]) == 1:
                t = t.a[2][0][1]
            if t.k == "vf" and opname(t.a[0]) in ("try_into", "try_from"):
                t = t.a[0].a[1][0]
            h = tail12(t)
            if h is not None and pos(h):
                z = None
                for x in {y for a in f for y in walk(a)}:
                    if head12(x) is h and z is None:
                        z = zeros(f, x)
                ob("value-" + what, True, "")
                ob("padding-" + what, z is True or (z is None and bool(mentions(f, t.a[1][0])) and False),
                   "an address word whose upper 12 bytes are not zero is accepted for %s" % what)
                return t
            ob("value-" + what, False, "%s of the deposit is decoded as %s" % (what, show(t)[:150]))
            return None
        addr(g("from_address"), lambda x: word_i(e, x, entry) == WI["from_address"], "from_address")
        tok = None
        if kind == "Erc20":
            tok = addr(g("erc20_contract_address"), lambda x: topic_i(x, entry) == TI["token"], "token")
        for a in f:
            for x in walk(a):
                h = tail12(x)
                if h is not None and topic_i(h, entry) == TI["token"]:
                    tok = x
        if tok is not None:
            z = zeros(f, tok)
            ob("native-iff-zero", z is (kind == "Native"),
               "a log whose token address is %szero is taken for a %s deposit" % ("not known to be " if z is None else "" if z else "non-", kind))
        elif kind == "Native":
            ob("native-iff-zero", False, "the native kind is chosen without testing the token address")
        # ---- principal
        p = g("principal")
        sl = None
        for x in walk(p):
            if opname(x) == "try_from_slice" or opname(x) == "from_slice":
                sl = x.a[1][0]
        P = [x for x in walk(p) if topic_i(x, entry) == TI["principal"] and x.k == "fld"]
        if sl is None or not P:
            ob("value-principal", False, "the principal is decoded from %s, not from the principal topic" % show(p)[:150])
        else:
            W = P[0]
            lenb = [x for x in walk(sl) if x.k == "vf" and opname(x.a[0]) == "get" and x.a[0].a[1][0] is W and
                    kval(x.a[0].a[1][1]) == 0]
            if not lenb:
                ob("value-principal", False, "the principal's length byte is not used: %s" % show(sl)[:150])
            else:
                L = lenb[0]
                good = opname(sl) == "split_l" and sl.a[1][1] is L and opname(sl.a[1][0]) == "slice" and sl.a[1][0].a[1][0] is W \
                    and kval(field(sl.a[1][0].a[1][1], "start")) == 1 if opname(sl) == "split_l" else None
                if good is None:
                    ctx.inconclusive.append("principal slice of unknown shape: %s" % show(sl)[:150])
                else:
                    ob("value-principal", good, "the principal is decoded from %s" % show(sl)[:150])
                lo, hi, ex = interval(f, L)
                ob("principal-length", lo >= 1 and hi <= 29 and (lo, hi) == (1, 29) and not ex,
                   "principals of length %d..%d are accepted (1..29 are valid)" % (lo, hi))
                if good:
                    rest = mk("call", sl.a[0].replace("split_l", "split_r"), sl.a[1])
                    ob("principal-padding", zeros(f, rest) is True, "non-zero bytes after the principal are accepted")
                    an = any(opname(a) == "eq" and v is False and sl in a.a[1] and any(rawval(x) == "04" for x in a.a[1])
                             for a, v in f.items()) or any(opname(a) == "eq" and v is False and any(
                                 contains(x, lambda y: opname(y) == "anonymous") for x in a.a[1]) for a, v in f.items())
                    ob("principal-anonymous", an, "a deposit to the anonymous principal is accepted")
        # ---- subaccount
        s = g("subaccount")
        w = [x for x in walk(s) if word_i(e, x, entry) == WI["subaccount"]]
        for fs, sv in arms(s, f):
            if sv is NONE:
                z = [x for x in fs if fs[x] is True and opname(x) == "eq" and any(word_i(e, y, entry) == WI["subaccount"] for y in x.a[1])
                     and any(set(rawval(y) or "x") <= {"0"} for y in x.a[1])]
                ok2 = bool(z) or any(zeros(fs, x) is True for x in {y for a in fs for y in walk(a)} if word_i(e, x, entry) == WI["subaccount"])
                ctx.ob(R + ".subaccount", tag + "/default", ok2,
                       "a deposit is credited to the default account although its subaccount may be set")
            else:
                inner = sv
                while inner.k == "agg" and len(inner.a[2]) == 1:
                    inner = inner.a[2][0][1]
                ok2 = opname(inner) == "from_be_bytes" and word_i(e, inner.a[1][0], entry) == WI["subaccount"]
                ctx.ob(R + ".subaccount", tag + "/set", ok2, "the subaccount is decoded as %s" % show(sv)[:150])
        # ---- nothing else may reject
        for a, v in f.items():
            cond_ok = True
            amt = [x for x in walk(a) if topic_i(x, entry) == TI["amount"]]
            if amt and not contains(a, lambda x: opname(x) == "get" and a.k == "is"):
                cond_ok = False
            for nm in ("block_number", "transaction_hash", "log_index", "transaction_index", "block_hash", "address"):
                if contains(a, lambda x: x is mk("vf", F(nm), "Some", "0")) or (nm == "address" and contains(a, lambda x: x is F(nm))):
                    cond_ok = False
            if contains(a, lambda x: x.k == "g"):
                cond_ok = False
            ctx.ob(R + ".no-extra-rejection", tag, cond_ok,
                   "deposits are additionally filtered by %s" % show(a)[:200])
    ctx.floor(R + ".topic-count", 2, "accepting paths (native and ERC-20)")
    for f, x in errs:
        if variant(x) == "InvalidEventSource":
            s = field(x, "source")
            ctx.ob(R + ".invalid-source", "Err", field(s, "transaction_hash") is mk("vf", F("transaction_hash"), "Some", "0") and
                   field(s, "log_index") is mk("vf", F("log_index"), "Some", "0"),
                   "a rejected log is recorded under %s" % show(s)[:150])
        elif variant(x) == "PendingLogEntry":
            ctx.ob(R + ".pending-only", "Err", any(is_var(f, F(n), "None") for n in
                                                  ("block_hash", "block_number", "transaction_hash", "transaction_index", "log_index")),
                   "a mined log is ignored as pending")
    ctx.floor(R + ".invalid-source", 1, "rejecting paths")


# ------------------------------------------------------------------------------------------ C04

SCRAPE_OPAQUE = re.compile(r"^evm_minter::rpc_client::RpcClient::|rpc_client::.*Reduce|has_http_outcall_error_matching|"
                           r"LogParser>::parse_log$|::LogParser::parse_log$|report_transaction_error|"
                           r"BlockRangeInclusive::(partition_into_halves|join_with|partition_at_checked)")


def scrape_run(ctx):
    d = task(ctx, "ScrapLogs", "deposit::scrape_logs")
    if d is None:
        return None
    return ctx.run(d, opaque_re=SCRAPE_OPAQUE, tag="scrape")


def pieces(t, whole, s0, e0):
    """(start, end) of a block-range value"""
    if t is whole:
        return s0, e0
    for _ in range(3):
        if t.k == "agg" and len(t.a[2]) == 1:
            t = t.a[2][0][1]
    if t.k == "agg" and t.a[0].endswith("RangeInclusive"):
        return field(t, "start"), field(t, "end")
    return None


def range_tables(ctx, R):
    """the block-range primitives split and merge ranges without losing or reordering a block"""
    def cover(rule, inst, parts, s0, e0):
        """parts: [(start,end)] in order must tile [s0,e0]"""
        good = bool(parts) and lineq(parts[0][0], s0) and lineq(parts[-1][1], e0)
        for (a, b), (c, d2) in zip(parts, parts[1:]):
            la, lc = lin(b), lin(c)
            good = good and (la[0] == lc[0] and la[1] + 1 == lc[1])
        ctx.ob(rule, inst, good, "splitting a block range yields %s, which does not tile the range" % (
            ", ".join("[%s, %s]" % (show(a)[:60], show(b)[:60]) for a, b in parts)))
    for name in ("partition_at_checked", "partition_into_halves"):
        d = ctx.fn("BlockRangeInclusive::" + name)
        if d is None:
            continue
        e, tab = ctx.table(d)
        if e.trunc:
            continue
        me = mk("p", ctx.p.bodies[d]["locals"][1]["n"] or "self")
        s0, e0 = (mk("fld", mk("fld", me, "0"), n) for n in ("start", "end"))
        for f, v, s in tab:
            parts = []
            bad = v.k != "agg"
            for _, x in (v.a[2] if not bad else ()):
                if variant(x) == "Some":
                    p = pieces(x.a[2][0][1], me, s0, e0)
                    bad = bad or p is None
                    parts.append(p)
                elif x is not NONE:
                    bad = True
            if bad:
                ctx.inconclusive.append("%s: result of unknown shape" % name)
                continue
            cover(R + ".split-tiles", "%s/%d parts" % (name, len(parts)), parts, s0, e0)
            if len(parts) == 2 and name == "partition_at_checked":
                mid = parts[1][0]
                ctx.ob(R + ".split-nonempty", name, "<" not in cmp_known(f, mid, s0) and "=" not in cmp_known(f, mid, s0) and
                       ">" not in cmp_known(f, mid, e0),
                       "a range is split at a point that may lie outside it")
    d = ctx.fn("BlockRangeInclusive::join_with")
    if d:
        e, tab = ctx.table(d)
        b = ctx.p.bodies[d]
        A, B = (mk("fld", mk("p", b["locals"][i]["n"]), "0") for i in (1, 2))
        for f, v, s in tab:
            p = pieces(v, None, None, None)
            if p is None:
                ctx.inconclusive.append("join_with: unknown shape")
                continue
            ctx.ob(R + ".join-spans", "start", is_min(f, p[0], mk("fld", A, "start"), mk("fld", B, "start")),
                   "joining two block ranges starts at %s, not at the smaller start" % show(p[0])[:120])
            ctx.ob(R + ".join-spans", "end", is_min(f, p[1], mk("fld", A, "end"), mk("fld", B, "end"), True),
                   "joining two block ranges ends at %s, not at the larger end" % show(p[1])[:120])
    d = [x for x, b in ctx.p.bodies.items() if b.get("impl_trait", "") and "Iterator" in b["impl_trait"] and
         "BlockRange" in x and short(x) == "next"]
    for d in d:
        e, tab = ctx.table(d)
        if e.trunc:
            continue
        me = mk("p", "self")
        rg = mk("fld", me, "range")
        s0, e0 = (mk("fld", mk("fld", rg, "0"), n) for n in ("start", "end"))
        ex = mk("fld", me, "exhausted")
        for f, v, s in tab:
            fin = me
            for k, x in s.mem.items():
                if k[0] == "T" and k[1] is me:
                    fin = x
            left = field(fin, "range")
            done = field(fin, "exhausted")
            if done is None or left is None:
                ctx.inconclusive.append("block chunks: unknown iterator layout")
                break
            if v is NONE:
                ctx.ob(R + ".chunks-end", "None", f.get(ex) is True or cmp_known(f, e0, s0) <= {"<"},
                       "the chunk iterator stops although blocks remain")
                continue
            if variant(v) != "Some":
                ctx.inconclusive.append("block chunks: unknown shape")
                continue
            p = pieces(v.a[2][0][1], rg, s0, e0)
            if p is None:
                ctx.inconclusive.append("block chunks: unknown shape")
                continue
            ctx.ob(R + ".chunks-live", "Some", f.get(ex) is False, "the chunk iterator yields a range after its end")
            if done is TRUE:
                cover(R + ".chunks-tile", "last", [p], s0, e0)
            else:
                q = pieces(left, rg, s0, e0)
                if q is None:
                    ctx.inconclusive.append("block chunks: unknown shape")
                else:
                    cover(R + ".chunks-tile", "more", [p, q], s0, e0)
    d = ctx.fn("BlockRangeInclusive::into_chunks")
    if d:
        e, tab = ctx.table(d)
        for f, v, s in tab:
            me = mk("p", ctx.p.bodies[d]["locals"][1]["n"])
            ctx.ob(R + ".chunks-init", "into_chunks", field(v, "range") is me and field(v, "exhausted") is FALSE,
                   "chunking a range starts from %s" % show(v)[:120])


def check_C04(ctx):
    R = "C04"
    range_tables(ctx, R)
    ctx.floor(R + ".split-tiles", 3, "range splitting results")
    ctx.floor(R + ".chunks-tile", 2, "chunk iterator results")
    e = scrape_run(ctx)
    if not ctx.need(e is not None, R + ".anchor", "scrape", "the log-scraping task is gone") or e.trunc:
        return
    gets = {ev.key: ev for ev in e.events if ev.kind == "suspend" and ev.name.endswith("::get_logs")}
    writes = [ev for ev in e.events if ev.kind == "write" and state_path(ev.args[0]) == "last_scraped_block_number"]
    apps = appends(e)
    ctx.need(bool(gets), R + ".anchor", "get_logs", "no logs are fetched by the scraping task")

    def spec(t):
        for _, v in arms(t):
            if variant(v) == "Number" and v.a[2]:
                return v.a[2][0][1]
        return None
    for ev in gets.values():
        q = ev.args[1]
        fr, to = spec(field(q, "from_block")), spec(field(q, "to_block"))
        okr = fr is not None and to is not None and fr.k == "fld" and to.k == "fld" and fr.a[0] is to.a[0] and \
            fr.a[1] == "start" and to.a[1] == "end"
        ctx.ob(R + ".request-range", "get_logs", okr,
               "logs are requested for %s..%s, not for one whole block range" % (show(fr)[:80] if fr else None, show(to)[:80] if to else None), ev.span)
        ad = field(q, "address")
        els = [v for _, v in ad.a[2]] if ad is not None and ad.k == "agg" and ad.a[0] == "[]" else None
        if els is not None:
            ctx.ob(R + ".request-address", "get_logs", len(els) == 1 and contains(els[0], lambda t: t.k == "fld" and t.a[1] == "helper_contract_address"),
                   "logs of %s are scraped instead of the helper contract's" % show(ad)[:120], ev.span)
        # topics
        tb, tops = unroll(field(q, "topics"))
        tl = []
        if tb.k == "agg" and tb.a[0] == "[]":
            tl = [v for _, v in tb.a[2]]
        tl += [a[0] for o, a in tops if o == "push"]
        if tl:
            sol = solidity_event(ctx, "DepositLog")
            t0 = rawval(tl[0].a[2][0][1]) if tl[0].k == "agg" and variant(tl[0]) == "Single" and tl[0].a[2] else None
            if sol and t0:
                ctx.ob(R + ".request-topic0", "get_logs", t0 == keccak256(sol[0].encode()),
                       "logs are requested for event topic 0x%s, which is not the helper contract's DepositLog event" % t0, ev.span)
        if len(tl) > 1 and variant(tl[1]) == "Multiple":
            col = tl[1].a[2][0][1]
            erc = contains(col, lambda t: t.k == "fld" and t.a[1] == "erc20_tokens")
            ctx.ob(R + ".request-tokens", "erc20", erc, "the token filter of the log request does not contain the supported ERC-20 tokens", ev.span)
            ctx.ob(R + ".request-tokens", "native", _matches_native(e, col),
                   "the token filter of the log request lists only ERC-20 contracts: native deposits (token address zero) are never "
                   "returned as soon as one token is supported, yet their blocks are marked as scraped", ev.span)
    # every advance of the cursor is justified
    skipped = [(ev, p) for ev, p, fs in apps if variant(p) == "SkippedBlock"]
    for w in writes:
        V = w.args[1]
        mine = [g for k, g in gets.items() if k in w.trace and spec(field(g.args[1], "to_block")) is V]
        if not ctx.ob(R + ".cursor-scraped", "write", bool(mine),
                      "the scraping cursor is set to %s, which is not the end of the range just requested" % show(V)[:150], w.span):
            continue
        for g in mine:
            r = g.result
            if is_var(w.facts, r, "Ok"):
                ctx.ob(R + ".cursor-reason", "fetched", True)
                late = [x for x in e.events if x.kind == "suspend" and x.key in w.trace and g.key in x.trace and x.key != g.key]
                ctx.ob(R + ".cursor-atomic", "fetched", not late,
                       "another call is awaited between receiving the logs and moving the cursor (an interrupted pass handles the "
                       "same logs twice)", w.span)
                # both loops over parsed logs ran to the end
                ends = [a.a[0] for a, v in w.facts.items() if a.k == "is" and opname(a.a[0]) == "next" and
                        (v == "None" or (isinstance(v, frozenset) and v == frozenset(["Some"])))]
                logs = mk("vf", r, "Ok", "0")
                over = [x for x in ends if contains(x, lambda t: t is logs)]
                ctx.ob(R + ".all-logs-handled", "fetched", bool(over) or not any(contains(p, lambda t: opname(t) == "parse_log") for _, p, _ in apps),
                       "the cursor moves past a range although the loop over its logs may have stopped early", w.span)
            else:
                sk = [p for ev, p in skipped if ev.key in w.trace and field(p, "block_number") is V]
                ctx.ob(R + ".cursor-reason", "skipped", bool(sk),
                       "the cursor moves past a range whose logs were not received, and no skipped block is recorded", w.span)
                big = any(opname(a) == "has_http_outcall_error_matching" and v is True and contains(a, lambda t: t is r) and
                          contains(a, lambda t: t.k == "fn" and t.a[0].endswith("is_response_too_large")) for a, v in w.facts.items())
                ctx.ob(R + ".skip-only-too-large", "skipped", big,
                       "a block is skipped for a reason other than its logs exceeding the response limit", w.span)
                fr, to = spec(field(g.args[1], "from_block")), V
                ctx.ob(R + ".skip-single-block", "skipped", cmp_known(w.facts, fr, to) <= {"="},
                       "more than one block is skipped at once", w.span)
    ctx.floor(R + ".cursor-reason", 2, "advances of the scraping cursor")
    # parsed logs -> events
    accepted = [(ev, p, fs) for ev, p, fs in apps if variant(p) in ("AcceptedDeposit", "AcceptedErc20Deposit", "InvalidDeposit")]
    loops, stray = {}, set()
    for ev, p, fs in accepted:
        pl = [t for t in walk(p) if opname(t) == "parse_log"]
        if not pl:
            ctx.inconclusive.append("deposit event of unknown provenance")
            stray.add(ev.key)
            continue
        el = pl[0].a[1][0]
        ctx.ob(R + ".logs-from-request", variant(p), el.k == "elem" and any(contains(el, lambda t: t is g.result) for g in gets.values()),
               "a deposit event is recorded from %s, not from the fetched logs" % show(el)[:120], ev.span)
        if variant(p) != "InvalidDeposit":
            inner = p.a[2][0][1]
            want = "Native" if variant(p) == "AcceptedDeposit" else "Erc20"
            ctx.ob(R + ".accepted-is-parsed", variant(p), inner.k == "vf" and inner.a[1] == want and inner.a[0].k == "vf" and
                   inner.a[0].a[0] is pl[0], "the recorded deposit is %s, not the parsed log" % show(inner)[:120], ev.span)
        else:
            ctx.ob(R + ".accepted-is-parsed", variant(p), contains(field(p, "event_source"), lambda t: t.k == "fld" and t.a[1] == "source"
                   or t.k == "vf" and t.a[1] == "InvalidEventSource"), "an invalid deposit is recorded under %s" % show(field(p, "event_source"))[:120], ev.span)
        for (dd, fid, head, s) in e.backs:
            if ev.key in s.trace:
                loops.setdefault((dd, fid, head), set()).add(ev.key)
    ctx.floor(R + ".accepted-is-parsed", 3, "kinds of deposit events")
    # innermost loop per handled log: all iterations must record something
    for (dd, fid, head), keys in loops.items():
        backs = [s for (d2, f2, h2, s) in e.backs if (d2, f2, h2) == (dd, fid, head)]
        # only the loop whose element is a parsed log
        okb = True
        for s in backs:
            if any(k in s.trace for k in keys | stray):
                continue
            pend = [a for a, v in s.facts.items() if a.k == "is" and contains(a, lambda t: opname(t) == "parse_log") and
                    (v == "PendingLogEntry" or (isinstance(v, frozenset) and v == frozenset(["InvalidEventSource"])))]
            if pend or dd.endswith("{closure#0}"):
                continue
            okb = False
        ctx.ob(R + ".each-log-recorded", short(dd) + "/" + "+".join(sorted({variant(p) for ev, p, _ in accepted if ev.key in keys})), okb,
               "an iteration over the parsed logs can end without recording the log as accepted or invalid")
    # the queue of ranges never loses a part
    phis = set()
    for g in gets.values():
        fr = spec(field(g.args[1], "from_block"))
        if fr is None:
            continue
        for t in walk(fr):
            if opname(t) in ("pop_front", "pop") and t.a[1][0].k == "phi":
                phis.add((t.a[1][0], mk("vf", t, "Some", "0")))
    for ph, X in phis:
        for s in [s for (_, f2, h2, s) in e.backs if (f2, h2) == tuple(ph.a[:2])]:
            vals = [v for v in s.mem.values() if isinstance(v, T) and unroll(v)[0] is ph]
            g = [x for k, x in gets.items() if k in s.trace and contains(x.args[1], lambda t: t is X)]
            if not vals or not g:
                continue
            b, ops = unroll(vals[0])
            pushes = [a[0] for o, a in ops if o.startswith("push")]
            wrote = any(w.key in s.trace and contains(w.args[1], lambda t: t is X) for w in writes)
            errd = any(is_var(s.facts, x.result, "Err") for x in g)
            if not errd and not any(is_var(s.facts, x.result, "Ok") for x in g):
                continue
            if wrote:
                ctx.ob(R + ".range-retired", "scraped", not pushes, "a scraped range is queued again")
                continue
            if not errd:
                ctx.ob(R + ".cursor-moves", "fetched", False, "a range whose logs were handled is dropped without moving the cursor")
                continue
            big = any(opname(a) == "has_http_outcall_error_matching" and v is True and
                      contains(a, lambda t: t.k == "fn" and t.a[0].endswith("is_response_too_large")) for a, v in s.facts.items())
            ctx.ob(R + ".stop-on-error", "error", big,
                   "scraping continues with the next range after an error other than an oversized response: the failed range is skipped")
            H = [t for v in pushes + list(s.facts) for t in walk(v) if opname(t) == "partition_into_halves" and t.a[1][0] is X]
            if not H:
                if X in pushes:
                    ctx.ob(R + ".split-requeued", "whole", True)
                else:
                    ctx.ob(R + ".split-requeued", "halves", False, "a range that must be split is dropped from the queue")
                continue
            H = H[0]
            L, Rr = mk("fld", H, "0"), mk("fld", H, "1")
            for half, nm in ((L, "lower"), (Rr, "upper")):
                if is_var(s.facts, half, "None"):
                    continue
                y = mk("vf", half, "Some", "0")
                inq = [i for i, v in enumerate(pushes) if contains(v, lambda t: t is y)]
                ctx.ob(R + ".split-requeued", nm, bool(inq), "the %s half of a split range is not queued again" % nm)
            # order: the queue is consumed from the front, so the lower half must be pushed to the front last
            if not is_var(s.facts, L, "None") and pushes:
                last = pushes[-1]
                opl = [o for o, a in ops if o.startswith("push")][-1]
                ctx.ob(R + ".split-order", "lower-first", opl == "push_front" and contains(last, lambda t: t is mk("vf", L, "Some", "0")),
                       "after a split the upper half is scraped first: the cursor jumps over the lower half")
            # a range taken out of the queue to be merged must be merged
            pops = [i for i, (o, a) in enumerate(ops) if o == "pop_front"]
            if len(pops) > 1:
                joined = any(opname(t) == "join_with" and contains(t, lambda y: opname(y) == "pop_front" and y.a[1][0].k == "mutd")
                             for v in pushes for t in walk(v))
                empty = any(a.k == "is" and opname(a.a[0]) == "pop_front" and a.a[0].a[1][0].k == "mutd" and is_var(s.facts, a.a[0], "None")
                            for a in s.facts)
                some2 = any(a.k == "is" and opname(a.a[0]) == "pop_front" and a.a[0].a[1][0].k == "mutd" and is_var(s.facts, a.a[0], "Some")
                            for a in s.facts)
                if some2 or joined:
                    ctx.ob(R + ".merge-kept", "next", joined, "the next queued range is removed and lost when a range is split")
    ctx.floor(R + ".split-requeued", 2, "re-queued halves")
    # where a pass starts
    for ph, X in phis:
        for t in e.phi_in.get(ph, ()):
            b, ops = unroll(t)
            if b is ph:
                continue
            starts = [x for x in walk(t) if x.k == "agg" and x.a[0].endswith("RangeInclusive") and len(x.a[2]) >= 2]
            for x in starts:
                for fs, st in arms(field(x, "start")):
                    c = [y for y in walk(st) if y.k == "fld" and y.a[1] == "last_scraped_block_number"]
                    if kval(st) == MAX256:
                        continue
                    l = lin(st)
                    ctx.ob(R + ".starts-after-cursor", "start", bool(c) and l == ({c[0]: 1}, 1) if c else False,
                           "a scraping pass starts at %s instead of the block after the cursor" % show(st)[:120])
    ctx.floor(R + ".starts-after-cursor", 1, "start of a scraping pass")
    # who else moves the cursor
    W = writers(ctx)
    okw = {w.stack[-1] if w.stack else "" for w in writes}
    from rules_deposit import who_writes
    inrun = tuple({x for w in writes for x in [w.stack[-1]] if w.stack} | {"update_last_scraped_block_number"})
    who_writes(ctx, R + ".cursor-writers", {"last_scraped_block_number"}, "blocks in between are never scraped", allow=inrun)


def _zero_addr(t):
    """the constant zero address (bare or left-padded to 32 bytes)"""
    if t.k == "k":
        return bool(re.search(r"(^|[^0-9a-f])(0{40}|0{64})$", str(t.a[-1])))
    r = rawval(t) if t.k == "agg" else None
    return r is not None and set(r) <= {"0"} and len(r) in (40, 64)


def _matches_native(e, col):
    """the disjunction of token addresses contains the zero address"""
    def member(v):
        if contains(v, lambda t: t.k == "elem"):
            return False
        return any(_zero_addr(t) and not (t.k == "k" and t.a[0] == "raw" and len(str(t.a[1])) == 64 and v is not t and
                                          contains(v, lambda u: u.k == "upd")) for t in walk(v))
    for t in walk(col):
        if t.k == "coll":
            for x in t.a[1:]:
                for a in (x if isinstance(x, tuple) else (x,)):
                    vs = [a] if isinstance(a, T) else [y for y in a if isinstance(y, T)] if isinstance(a, tuple) else []
                    if any(member(v) for v in vs):
                        return True
        if t.k == "mutd" and any(member(a) for a in t.a[2]):
            return True
        if t.k == "agg" and t.a[0] == "[]" and any(member(v) for _, v in t.a[2]):
            return True
    return False
