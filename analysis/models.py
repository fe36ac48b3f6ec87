"""Transfer functions of library operations for the dataflow engine (std collections, Option/Result
combinators, iterators, futures, cells, conversions, comparisons, scopeguard, IC interfaces)."""
import re
from engine import (mk, agg, some, NONE, ok, err, tup, UNIT, UNDEF, MOVED, kint, kbool, TRUE, FALSE, short, _strip_gen,
                    TRANSPARENT, ITER_SOURCES, CMP, St, Truncated)

OPT = "core::option::Option::<"
RES = "core::result::Result::<"
EMPTY = agg("[]", None, ())

#: external operations that are effects in their own right (always recorded)
EFFECT = re.compile(r"^(ic_cdk::|ic_cdk_timers::|icrc_ledger_client_cdk::|ic_stable_structures::(log|btreemap)|"
                    r"evm_rpc_client::EvmRpcClient)")
PURE_IC = {"ic_cdk::api::id", "ic_cdk::api::caller", "ic_cdk::id", "ic_cdk::caller", "ic_cdk::api::time", "ic_cdk::setup",
           "ic_cdk::api::call::arg_data", "ic_cdk::api::instruction_counter", "ic_cdk::api::call::reply"}

NUM = re.compile(r"^(core::num::<impl [ui]\w+>|ethnum::|<ethnum::|num_bigint::|<?evm_minter::checked_amount|core::ops::(arith|bit)::|"
                 r"num_traits::|evm_rpc_types::Nat256)")


def val(e, st, a):
    """value behind (possibly nested) references, one level at a time"""
    a = e.resolve(st, a)
    n = 0
    while a.k == "ref" and n < 8:
        a = e.readv(st, (a.a[0], a.a[1]))
        n += 1
    return a


def payload(e, st, a, variant, field="0"):
    """payload of an Option/Result value; of a reference to one: a reference to the payload"""
    a = e.resolve(st, a)
    if a.k == "ref":
        inner = e.readv(st, (a.a[0], a.a[1]))
        if inner.k == "ref":
            return payload(e, st, inner, variant, field)
        if inner.k in ("agg",):
            v = e.proj(st, inner, ("vf", variant, field))
            if v.k == "ref":
                return v
        return mk("ref", a.a[0], a.a[1] + (("vf", variant, field),))
    return e.proj(st, a, ("vf", variant, field))


def split(e, st, a, good, bad, bad_has_payload):
    """[(is_good, state, payload)]"""
    out = []
    v = val(e, st, a)
    for s in e.assume_variant(st.copy(), v, good):
        out.append((True, s, payload(e, s, a, good)))
    for s in e.assume_variant(st.copy(), v, bad):
        out.append((False, s, payload(e, s, a, bad) if bad_has_payload else None))
    return out


def fin(e, st, outs):
    return e.collapse(st, outs)


def panic(e, st, what, span, site):
    e.emit(st.copy(), "panic", what, (), (), span, site)


def key_path(e, st, a):
    a = e.resolve(st, a)
    if a.k == "ref" and a.a[0][0] == "G":
        return a.a[0][1]
    g = val(e, st, a)
    return g.a[0] if g.k in ("g", "kpath") else "?"


# ------------------------------------------------------------------------------------ iterators


def as_iter(e, st, a):
    a = e.resolve(st, a)
    if a.k == "ref":
        v = e.readv(st, (a.a[0], a.a[1]))
        if v.k in ("iter",):
            return v
        a = v
    if a.k == "iter":
        return a
    return mk("iter", e.snap(st, a), ())


def isrep(v):
    return v.k == "agg" and v.a[0] == "[]" or v.k == "call" and v.a[0] == "op:repeat"


def add_stage(it, *s):
    return mk("iter", it.a[0], it.a[1] + (tuple(s),))


SKIP = object()


def src_elems(e, st, src, uid):
    """elements a source can yield -> [(state, term)]"""
    src = e.resolve(st, src)
    if src.k == "agg" and src.a[0] == "[]":
        if len(src.a[2]) > 12:
            return [(st, mk("elem", src, uid))]
        return [(st.copy(), v) for _, v in src.a[2]]
    if src.k == "agg" and src.a[0].startswith("core::option::Option"):
        return [(st, v) for _, v in src.a[2]]
    if src.k == "coll":
        out = []
        for fs, v in src.a[1]:
            for s in e.assume_all(st.copy(), fs):
                out.append((s, v))
        return out
    if src.k == "chain":
        out = []
        for x in src.a[0]:
            for s, v in iter_elems(e, st.copy(), x, ("ch",) + tuple(uid.a), None):
                out.append((s, v))
        return out
    if src.k == "case":
        out = []
        for fs, v in src.a[0]:
            for s in e.assume_all(st.copy(), fs):
                out += src_elems(e, s, v, uid)
        return out
    if src.k == "mutd" and src.a[1] in ("op:push", "op:push_front"):
        return [(st.copy(), src.a[2][0])] + src_elems(e, st.copy(), src.a[0], uid)
    if src.k == "zip":
        out = []
        for s, x in iter_elems(e, st.copy(), src.a[0], ("z0",) + tuple(uid.a), None):
            for s2, y in iter_elems(e, s, src.a[1], ("z1",) + tuple(uid.a), None):
                out.append((s2, tup(x, y)))
        return out
    if src.k == "phi":
        ins = [i for i in e.phi_in.get(src) or () if i is not src]     # a round that leaves it alone adds no element
        if ins and len(ins) <= 10 and all(i.k in ("agg", "mutd", "coll") for i in ins):
            out = []
            for i in ins:
                if i.k == "agg" and i.a[0] == "[]":
                    out += src_elems(e, st.copy(), i, uid)
                elif i.k == "mutd" and i.a[1] == "op:push" and i.a[0] is src:
                    out.append((st.copy(), i.a[2][0]))
                else:
                    out.append((st.copy(), mk("elem", i, uid)))
            return out
    return [(st, mk("elem", src, uid))]


def iter_elems(e, st, it, site, span, rej=None):
    """all elements an iterator can yield (one generic element per source) -> [(state, value)]"""
    uid = e.uid(("el",) + tuple(site))
    cur = src_elems(e, st, it.a[0], uid)
    for i, sg in enumerate(it.a[1]):
        nxt = []
        op = sg[0]
        for s, v in cur:
            ss = tuple(site) + (i,)
            if op == "map":
                nxt += e.call_value(s, sg[1], [v], ss, span)
            elif op in ("filter", "take_while", "skip_while", "inspect"):
                h = hold(e, s, v, ss)
                for s2, b in e.call_value(s, sg[1], [h], ss, span):
                    v2 = unhold(e, s2, h)
                    if op == "filter" or op == "take_while":
                        if rej is not None and op == "filter":
                            rej += e.assume_bool(s2.copy(), e.snap(s2, b), False)
                        nxt += [(s3, v2) for s3 in e.assume_bool(s2, e.snap(s2, b), True)]
                    else:
                        nxt.append((s2, v2))
            elif op in ("filter_map", "map_while"):
                for s2, r in e.call_value(s, sg[1], [v], ss, span):
                    if rej is not None and op == "filter_map":
                        rej += e.assume_variant(s2.copy(), r, "None")
                    for s3 in e.assume_variant(s2, r, "Some"):
                        nxt.append((s3, e.proj(s3, e.resolve(s3, r), ("vf", "Some", "0"))))
            elif op == "enumerate":
                nxt.append((s, tup(mk("idx", uid), v)))
            elif op == "proj":
                nxt.append((s, e.proj(s, v, ("f", sg[1])) if v.k != "ref" else
                            mk("ref", v.a[0], v.a[1] + (("f", sg[1]),))))
            elif op in ("flat_map", "flatten"):
                rs = e.call_value(s, sg[1], [v], ss, span) if op == "flat_map" else [(s, v)]
                for s2, r in rs:
                    r = e.resolve(s2, r)
                    if r.k == "case" or (r.k == "agg" and r.a[0].startswith(("core::option", "core::result"))) or \
                            e.variant_known(s2, r) in ("Some", "Ok", "None", "Err"):
                        for good in ("Some", "Ok"):
                            for s3 in e.assume_variant(s2.copy(), r, good):
                                nxt.append((s3, e.proj(s3, e.resolve(s3, r), ("vf", good, "0"))))
                                break
                    else:
                        nxt += iter_elems(e, s2, as_iter(e, s2, r), ss + ("fl",), span)
            elif op == "cloned":
                nxt.append((s, val(e, s, v) if v.k == "ref" else v))
            else:
                nxt.append((s, v))
        cur = nxt
        if len(cur) > 40:
            cur = cur[:40]
    return cur


def hold(e, st, v, site):
    """park a value in a temporary location, giving a reference to it"""
    if v.k == "ref":
        return v
    base = ("L", "h", ) + (e.uid(("hold",) + tuple(site)),)
    st.mem[base] = v
    return mk("ref", base, ())


def unhold(e, st, h):
    if h.a[0][0] == "L" and h.a[0][1] == "h":
        return st.mem.pop(h.a[0], UNDEF)
    return h


def run_iter(e, st, it, site, span):
    """evaluate the pipeline on its generic element; -> (outcomes, pure?)"""
    pre = st.trace
    outs = iter_elems(e, st.copy(), it, site, span)
    pure = all(s.trace == pre and s.epoch == st.epoch for s, _ in outs)
    return outs, pure


def delta(st, s):
    return tuple(sorted(((a, x) for a, x in s.facts.items() if st.facts.get(a) != x), key=lambda z: z[0].h))


def coll_of(e, st, it, outs):
    if len(it.a[1]) == 0:
        return it.a[0]
    arms = tuple((delta(st, s), e.snap(s, v)) for s, v in outs)
    return mk("coll", it.a[0], arms)


def after(e, st, outs, value):
    """state(s) after consuming an iterator whose closures had effects"""
    res = [(st, value)]
    seen = set()
    for s, _ in outs:
        key = (frozenset(s.mem.items()), s.trace)
        if (s.trace != st.trace) and key not in seen:
            seen.add(key)
            s2 = s.copy()
            s2.facts = {a: x for a, x in s.facts.items() if a in st.facts}
            res.append((s2, value))
    return res[:12]


def loop_fold(e, st, it, init, f, site, span):
    """fold whose closure updates the accumulator in place: the loop that updates a variable"""
    acc = mk("phi", "acc", e.uid(site))
    n = len(e.events)
    s1 = st.copy()
    new = [e.snap(s, v) for s2, x in run_iter(e, s1, it, site, span)[0] for s, v in e.call_value(s2, f, [acc, x], tuple(site) + ("p",), span)]
    del e.events[n:]
    if not new or not all(v is acc or v.k == "mutd" and contains(v, lambda x: x is acc) for v in new):
        return None
    b = ("L", site[0], ("acc",) + tuple(site[1:]))
    st = st.copy()
    st.mem[b] = init

    def step(s, x):
        return [(put(s3, v), UNIT) for s3, v in e.call_value(s, f, [s.mem[b], x], tuple(site) + ("p",), span)]

    def put(s, v):
        s.mem[b] = v
        return s
    return [(s, s.mem[b]) for s, _ in loop_each(e, st, it, step, site, span)]


def loop_each(e, st, it, f, site, span):
    """for_each as a loop: one iteration from an arbitrary earlier state, and the exit"""
    t = mk("call", "op:next", (mk("iter", it.a[0], ()), e.uid(site)))
    fid, hd = site[0], ("each",) + tuple(site[1:])

    def body(s0):
        res = []
        rej = []
        for s, v in iter_elems(e, s0.copy(), it, site, span, rej):
            for s2 in e.assume_variant(s, t, "Some"):
                res += f(s2, v) if callable(f) else e.call_value(s2, f, [v], tuple(site) + ("p",), span)
        return res + [(s2, UNIT) for s in rej for s2 in e.assume_variant(s, t, "Some")]
    n = len(e.events)
    changed, epochs = set(), False
    for s, _ in body(st):
        changed |= {b for b, v in st.mem.items() if s.mem.get(b) is not v}
        epochs |= s.trace != st.trace
    del e.events[n:]
    s0 = st.copy()
    for b in changed:
        if b[0] == "L":
            ph = mk("phi", fid, hd, b)
            e.phi_in.setdefault(ph, set()).add(s0.mem[b])
            s0.mem[b] = ph
    if epochs:
        s0.epoch = mk("ep", e.uid(("loop", fid, hd)))
        for b in [b for b in s0.mem if b[0] in ("G", "T")]:
            if b[0] == "G":
                del s0.mem[b]
            else:
                s0.mem[b] = mk("phi", fid, hd, b)
    for s, _ in body(s0):
        for b in changed:
            if b[0] == "L" and s.mem.get(b) is not s0.mem[b]:
                e.phi_in[s0.mem[b]].add(s.mem[b])
        e.backs.append((None, fid, hd, s))
    return [(s, UNIT) for s in e.assume_variant(s0, t, "None")]


# ------------------------------------------------------------------------------------ helpers


def mutate(e, st, a, op, args, span, site, result):
    """in-place update of a collection behind a reference"""
    sn = tuple(e.snap(st, x) for x in args)
    a = e.resolve(st, a)
    if a.k == "ref" and a.a[0][0] == "L" and not a.a[1]:
        v = st.mem.get(a.a[0])
        if v is not None and v.k == "ref":
            a = v
    if a.k != "ref":
        # a by-value handle to an opaque pointee
        a = mk("ref", ("T", a), ())
    old = e.snap(st, e.read(st, (a.a[0], a.a[1])))
    keepref = tuple(e.resolve(st, x) for x in args)
    if op in ("op:push", "op:push_back", "op:push_front", "op:insert"):
        nargs = keepref
    else:
        nargs = sn
    e.write(st, (a.a[0], a.a[1]), mk("mutd", old if old.k != "ref" else old, op, nargs, e.uid(("m",) + tuple(site))))
    if a.a[0][0] in ("G", "T"):
        ev = e.emit(st, "call", op, (old,) + sn, (e.place_name(st, a),), span, site)
        ev.result = result
    return [(st, result)]


def map_get(e, st, m, k):
    """BTreeMap lookup on a snapshot term"""
    m = e.resolve(st, m)
    n = 0
    while n < 20:
        n += 1
        if m.k == "agg" and m.a[0] == "[]" and not m.a[2]:
            return NONE
        if m.k == "mutd":
            if m.a[1] == "op:insert" and e.snap(st, m.a[2][0]) is k and len(m.a[2]) > 1:
                return some(m.a[2][1])
            if m.a[1] == "op:remove" and m.a[2] and m.a[2][0] is k:
                return NONE
        if m.k == "upd":
            for el, v in m.a[1]:
                if el == ("i", k):
                    return some(v)
        break
    return mk("call", "op:get", (m, k))


def set_contains(e, st, m, x):
    m = e.resolve(st, m)
    if m.k == "agg" and m.a[0] == "[]" and not m.a[2]:
        return FALSE
    if m.k == "mutd":
        if m.a[1] == "op:insert" and m.a[2][0] is x:
            return TRUE
        if m.a[1] == "op:remove" and m.a[2][0] is x:
            return FALSE
    return mk("call", "op:contains", (m, x))


def is_local_impl(e, fn, target):
    b = e.p.bodies.get(target)
    return b is not None and not b.get("derived")


def inline(e, st, target, args, site, span):
    f = e.fid(site[0], site, target)
    return e.collapse(st, e.exec_body(target, f, st, args))


def conv(e, st, fn, target, args, site, span, te):
    """Into/From: local impls are entered, library conversions preserve the value"""
    via = fn.get("via") or {}
    for cand in (via.get("def"), target):
        if cand and cand in e.p.bodies and e.want_inline(cand) and not e.is_prim({"def": cand, "res": {"def": cand}}):
            return inline(e, st, cand, args, site, span)
    b = None
    if not fn.get("res") and len(fn.get("args") or ()) == 2:
        f0 = site[0] if isinstance(site, tuple) else None
        con = [e.tysub(f0, a) for a in fn["args"]]
        con = con[::-1] if fn.get("name") == "into" else con
        for ib in e.p.trait_impls.get(("core::convert::From", "from"), []):
            if ib.get("impl_args") == con and e.want_inline(ib["def"]) and \
                    not e.is_prim({"def": ib["def"], "res": {"def": ib["def"]}}):
                return inline(e, st, ib["def"], args, site, span)
    dt = (te or {}).get("destty", "")
    v = e.resolve(st, args[0])
    if v.k == "ref":
        v = val(e, st, v) if not dt.startswith("&") else v
    if dt.startswith("core::option::Option<") and te and te["argtys"] and not te["argtys"][0].startswith("core::option"):
        v = some(v)
    return [(st, v)]


def _call_args(e, st, t):
    t = e.resolve(st, t)
    if t.k == "agg" and t.a[0] == "()":
        return [v for _, v in t.a[2]]
    return [t]


# ------------------------------------------------------------------------------------ the table


def model(e, st, fn, target, args, site, span, te):
    d = fn["def"]
    nm = fn.get("name") or short(d)
    # ---- closures
    if d in ("core::ops::function::FnOnce::call_once", "core::ops::function::Fn::call",
             "core::ops::function::FnMut::call_mut"):
        return e.call_value(st, args[0], _call_args(e, st, args[1]), site, span)
    # ---- control flow of ?
    if d == "core::ops::try_trait::Try::branch":
        ty = te["argtys"][0] if te else ""
        CF = "core::ops::control_flow::ControlFlow"
        outs = []
        if ty.startswith("core::option"):
            for g, s, p in split(e, st, args[0], "Some", "None", False):
                outs.append((s, agg(CF, "Continue", (("0", p),)) if g else agg(CF, "Break", (("0", NONE),))))
        else:
            for g, s, p in split(e, st, args[0], "Ok", "Err", True):
                outs.append((s, agg(CF, "Continue", (("0", p),)) if g else agg(CF, "Break", (("0", err(p)),))))
        return fin(e, st, outs)
    if d == "core::ops::try_trait::FromResidual::from_residual":
        dt = te["destty"] if te else ""
        if dt.startswith("core::option"):
            return [(st, NONE)]
        outs = []
        v = val(e, st, args[0])
        if v.k == "agg" and v.a[1] == "None":
            return [(st, NONE)]
        ev = e.proj(st, v, ("vf", "Err", "0"))
        ra = (fn.get("res") or {}).get("args") or ()
        if len(ra) == 3:            # an error of another type: converted on the way
            f0 = site[0] if isinstance(site, tuple) else None
            con = [e.tysub(f0, a) for a in (ra[2], ra[1])]
            if con[0] != con[1]:
                for ib in e.p.trait_impls.get(("core::convert::From", "from"), []):
                    if ib.get("impl_args") == con and e.want_inline(ib["def"]) and \
                            not e.is_prim({"def": ib["def"], "res": {"def": ib["def"]}}):
                        return [(s, err(x)) for s, x in inline(e, st, ib["def"], [ev], site, span)]
        return [(st, err(ev))]
    # ---- futures
    if d == "core::future::future::Future::poll":
        outs = e.drive(st, args[0], site, span)
        return [(s, agg("core::task::poll::Poll", "Ready", (("0", v),))) for s, v in outs]
    if d == "core::future::get_context":
        return [(st, UNIT)]
    if d == "futures_util::future::join_all::join_all":
        it = as_iter(e, st, args[0])
        return [(st, mk("joinall", it))]
    # ---- cells, thread locals
    if nm in ("with", "with_borrow", "with_borrow_mut") and "LocalKey" in d:
        path = key_path(e, st, args[0])
        return e.call_value(st, args[1], [mk("ref", ("G", path), ())], site, span)
    if nm in ("set", "replace", "take") and "LocalKey" in d:
        path = key_path(e, st, args[0])
        loc = (("G", path), ())
        old = e.read(st, loc)
        new = args[1] if len(args) > 1 else mk("k", "empty", "")
        e.assign(st, loc, new, span, site)
        return [(st, old if nm != "set" else UNIT)]
    if nm in ("replace", "set") and d.startswith("core::cell::"):
        loc = e.deref(st, args[0])
        old = e.read(st, loc)
        e.assign(st, loc, args[1], span, site)
        return [(st, old if nm == "replace" else UNIT)]
    if d == "core::cell::RefCell::<T>::take":
        loc = e.deref(st, args[0])
        old = e.read(st, loc)
        e.assign(st, loc, NONE, span, site)
        return [(st, old)]
    # ---- memory
    if d in ("core::mem::drop",):
        return [(s, UNIT) for s, _ in e.drop_value(st, args[0], site, span)]
    if d in ("core::mem::forget", "core::mem::ManuallyDrop::<T>::drop", "core::mem::ManuallyDrop::<T>::new"):
        found = []
        e.find_drops(st, val(e, st, args[0]), found)
        for g in found:
            if g.a[0] == "scopeguard::ScopeGuard":
                f = dict(g.a[2])
                e.emit(st, "defuse", "scopeguard", (e.snap(st, f["value"]), e.snap(st, f["f"])), (), span, site)
            else:
                e.emit(st, "leak", g.a[0], (e.snap(st, g),), (), span, site)
        return [(st, UNIT if d != "core::mem::ManuallyDrop::<T>::new" else args[0])]
    if d in ("core::mem::replace", "core::mem::take"):
        loc = e.deref(st, args[0])
        old = e.read(st, loc)
        new = args[1] if len(args) > 1 else default_for(te["destty"] if te else "")
        e.assign(st, loc, new, span, site)
        return [(st, old)]
    if d == "core::mem::swap":
        l0, l1 = e.deref(st, args[0]), e.deref(st, args[1])
        a, b = e.read(st, l0), e.read(st, l1)
        e.assign(st, l0, b, span, site)
        e.assign(st, l1, a, span, site)
        return [(st, UNIT)]
    if d == "core::mem::needs_drop":
        return [(st, FALSE)]
    # ---- scopeguard
    if d == "scopeguard::guard":
        return [(st, agg("scopeguard::ScopeGuard", None, (("value", args[0]), ("f", args[1]))))]
    if d.startswith("scopeguard::ScopeGuard") and nm == "into_inner":
        g = val(e, st, args[0])
        v = e.proj(st, g, ("f", "value"))
        e.emit(st, "defuse", "scopeguard", (e.snap(st, v), e.snap(st, e.proj(st, g, ("f", "f")))), (), span, site)
        return [(st, v)]
    # ---- vec! lowering
    if d.endswith("Box::<T>::new_uninit"):
        base = ("L", site[0], "box%s" % site[1])
        st.mem.pop(base, None)
        return [(st, mk("ref", base, ()))]
    if d.endswith("box_assume_init_into_vec_unsafe") or nm == "assume_init":
        a = args[0]
        if a.k == "ref":
            v = e.readv(st, (a.a[0], a.a[1]))
            n = 0
            while v.k in ("agg", "upd") and not (v.k == "agg" and v.a[0] == "[]") and n < 6:
                n += 1
                if v.k == "agg":
                    if len(v.a[2]) != 1:
                        break
                    v = v.a[2][0][1]
                else:
                    if len(v.a[1]) != 1:
                        break
                    v = v.a[1][0][1]
            st.mem.pop(a.a[0], None)
            return [(st, v)]
        return [(st, a)]
    # ---- clone family: value copies
    if d in ("core::clone::Clone::clone", "alloc::borrow::ToOwned::to_owned", "alloc::slice::<impl [T]>::to_vec",
             "core::option::Option::<&T>::cloned", "core::option::Option::<&T>::copied",
             "core::option::Option::<&mut T>::cloned", "core::option::Option::<&mut T>::copied",
             "core::result::Result::<&T, E>::cloned", "core::result::Result::<&T, E>::copied"):
        a = e.resolve(st, args[0])
        if d.startswith("core::option") or d.startswith("core::result"):
            v = val(e, st, a)
            if v.k == "agg" and v.a[2] and v.a[2][0][1].k == "ref":
                return [(st, agg(v.a[0], v.a[1], ((v.a[2][0][0], e.readv(st, (v.a[2][0][1].a[0], v.a[2][0][1].a[1]))),)
                                 + v.a[2][1:]))]
            if v.k == "case":
                return [(st, e.snap(st, v))]
            return [(st, v)]
        if a.k == "ref":
            v = e.readv(st, (a.a[0], a.a[1]))
            if v.k == "ref" and te and not te["destty"].startswith("&"):
                v = val(e, st, v)
            return [(st, v)]
        return [(st, a)]
    if d == "core::clone::Clone::clone_from":
        e.assign(st, e.deref(st, args[0]), val(e, st, args[1]), span, site)
        return [(st, UNIT)]
    if d in ("core::ops::deref::Deref::deref", "core::ops::deref::DerefMut::deref_mut"):
        a = e.resolve(st, args[0])
        v = val(e, st, a)
        if v.k == "agg" and v.a[0] == "scopeguard::ScopeGuard" and a.k == "ref":
            return [(st, mk("ref", a.a[0], a.a[1] + (("f", "value"),)))]
        if target in e.p.bodies and e.want_inline(target):
            return None
        if a.k == "ref" and v is not a:
            inner = e.readv(st, (a.a[0], a.a[1]))
            if inner.k == "ref":
                return [(st, inner)]
        return [(st, a)]
    if d in TRANSPARENT or nm in ("as_slice", "as_mut_slice", "as_str", "as_bytes", "into_boxed_slice", "into_vec") and \
            target not in e.p.bodies:
        if target in e.p.bodies and d.startswith(("core::convert::AsRef", "core::borrow")) and e.want_inline(target):
            return None
        if nm in ("clone", "to_owned", "cloned", "copied", "get", "to_vec") and e.resolve(st, args[0]).k == "ref":
            v = val(e, st, args[0])
            if v is not None and v.k != "undef":
                return [(st, v)]
        return [(st, args[0])]
    # ---- comparisons
    if d in CMP:
        if is_local_impl(e, fn, target) and not e.is_prim(fn):
            return None
        a, b = e.snap(st, args[0]), e.snap(st, args[1])
        return [(st, e.cmp_term(CMP[d], a, b))]
    if d in ("core::cmp::Ord::max", "core::cmp::max"):
        return [(st, mk("call", "op:max", tuple(sorted((e.snap(st, args[0]), e.snap(st, args[1])), key=lambda z: z.h))))]
    if d in ("core::cmp::Ord::min", "core::cmp::min"):
        return [(st, mk("call", "op:min", tuple(sorted((e.snap(st, args[0]), e.snap(st, args[1])), key=lambda z: z.h))))]
    if d in ("core::cmp::Ord::cmp", "core::cmp::PartialOrd::partial_cmp"):
        if is_local_impl(e, fn, target) and not e.is_prim(fn):
            return None
        return [(st, mk("call", "op:cmp", (e.snap(st, args[0]), e.snap(st, args[1]))))]
    # ---- conversions
    if d in ("core::convert::Into::into", "core::convert::From::from"):
        return conv(e, st, fn, target, args, site, span, te)
    if d in ("core::convert::TryInto::try_into", "core::convert::TryFrom::try_from"):
        via = fn.get("via") or {}
        for cand in (via.get("def"), target):
            if cand and cand in e.p.bodies and e.want_inline(cand) and not e.is_prim({"def": cand, "res": {"def": cand}}):
                return inline(e, st, cand, args, site, span)
        v = e.snap(st, args[0])
        m = re.match(r"core::result::Result<\[u8; (\d+)\],", (te or {}).get("destty", ""))
        if m and byte_len(e, v, st) == int(m.group(1)):
            return [(st, ok(v))]
        return [(st, mk("call", "op:try_into", (v,)))]
    if d == "core::str::<impl str>::parse" or d == "core::str::traits::FromStr::from_str":
        via = fn.get("via") or {}
        for cand in (via.get("def"), target):
            if cand and cand in e.p.bodies and e.want_inline(cand):
                return inline(e, st, cand, args, site, span)
        return [(st, mk("call", "op:parse", (e.snap(st, args[0]),)))]
    if d == "alloc::string::ToString::to_string":
        a = e.snap(st, args[0])
        own = te and te.get("argtys") and te["argtys"][0].lstrip("&") in ("alloc::string::String", "str")
        return [(st, a if own or a.k == "k" and a.a[0] == "str" else mk("call", "op:to_string", (a,)))]
    if re.match(r"num_traits::cast::ToPrimitive::to_", d):
        return [(st, mk("call", "op:try_into", (e.snap(st, args[0]), mk("k", "opt", nm))))]
    # ---- Option / Result
    if d.startswith(OPT) or d.startswith(RES):
        r = optres(e, st, d, nm, args, site, span, te)
        if r is not None:
            return r
    if d == "core::bool::<impl bool>::then_some":
        outs = [(s, some(args[1])) for s in e.assume_bool(st.copy(), args[0], True)]
        outs += [(s, NONE) for s in e.assume_bool(st.copy(), args[0], False)]
        return fin(e, st, outs)
    if d == "core::bool::<impl bool>::then":
        outs = []
        for s in e.assume_bool(st.copy(), args[0], True):
            outs += [(s2, some(v)) for s2, v in e.call_value(s, args[1], [], site, span)]
        outs += [(s, NONE) for s in e.assume_bool(st.copy(), args[0], False)]
        return fin(e, st, outs)
    # ---- Default
    if d == "core::default::Default::default" and target not in e.p.bodies:
        return [(st, default_for(te["destty"] if te else (fn.get("args") or [""])[0]))]
    # ---- iterators
    if d in ITER_SOURCES or (nm in ("iter", "iter_mut", "into_iter", "drain", "keys", "values", "values_mut", "into_keys",
                                    "into_values") and re.match(r"(alloc|std|core)::", d)):
        if target in e.p.bodies and e.want_inline(target) and not e.is_prim(fn):
            return None
        a = e.resolve(st, args[0])
        it = as_iter(e, st, a)
        if nm in ("keys", "into_keys"):
            it = add_stage(it, "proj", "0")
        elif nm in ("values", "values_mut", "into_values"):
            it = add_stage(it, "proj", "1")
        elif nm == "drain" and a.k == "ref":
            mutate(e, st, a, "op:drain", args[1:], span, site, UNIT)
        elif nm == "iter_mut" and a.k == "ref" and a.a[0][0] == "L" and isrep(val(e, st, a)):
            # what is written through the elements is not followed: the array is no longer known
            mutate(e, st, a, "op:iter_mut", args[1:], span, site, UNIT)
            e.blind = True
        return [(st, it)]
    if d.startswith("core::iter::") or d.startswith("itertools::"):
        r = iterop(e, st, d, nm, args, site, span, te, fn, target)
        if r is not None:
            return r
    # ---- collections
    if re.match(r"(alloc|std|core)::(collections|vec|slice|array|string|str)\b", d) or re.match(
            r"std::collections::hash::", d):
        r = collop(e, st, d, nm, args, site, span, te, fn)
        if r is not None:
            return r
    if d in ("core::ops::index::Index::index", "core::ops::index::IndexMut::index_mut"):
        if target in e.p.bodies and e.want_inline(target):
            return None
        i = e.snap(st, args[1])
        a = e.resolve(st, args[0])
        rng = i.k == "agg" and "range::Range" in i.a[0]
        if rng and i.a[0].endswith("RangeFull"):
            return [(st, args[0])]
        z = re.match(r"&(?:mut )?\[u8; (\d+)\]$", te["argtys"][0]) if te and te.get("argtys") else None
        if rng and z:
            e.arrlen[e.snap(st, args[0])] = int(z.group(1))
            f = dict(i.a[2])
            if "end" in f and short(i.a[0]) in ("Range", "RangeTo") and f["end"] == kint(int(z.group(1))):
                i = agg("core::ops::range::RangeFrom", None, (("start", f.get("start", kint(0))),))
        m = val(e, st, a)
        if not rng and m.k == "agg" and m.a[0] == "[]" and i.k == "k":
            el = ("ci", i.a[1], False)
        else:
            el = ("sl", i) if rng else ("i", i)
        if a.k == "ref":
            return [(st, mk("ref", a.a[0], a.a[1] + (el,)))]
        return [(st, e.proj(st, a, el))]
    if d == "core::iter::traits::collect::Extend::extend":
        it = as_iter(e, st, args[1])
        outs, pure = run_iter(e, st, it, site, span)
        return mutate(e, st, args[0], "op:extend", [coll_of(e, st, it, outs)], span, site, UNIT)
    # ---- ranges
    if d.startswith("core::ops::range::RangeInclusive"):
        R = "core::ops::range::RangeInclusive"
        if nm == "new":
            return [(st, agg(R, None, (("start", args[0]), ("end", args[1]))))]
        a = e.resolve(st, args[0])
        if nm in ("start", "end"):
            if a.k == "ref":
                return [(st, mk("ref", a.a[0], a.a[1] + (("f", nm),)))]
            return [(st, e.proj(st, a, ("f", nm)))]
        if nm == "into_inner":
            v = val(e, st, a)
            return [(st, tup(e.proj(st, v, ("f", "start")), e.proj(st, v, ("f", "end"))))]
        if nm == "is_empty":
            v = val(e, st, a)
            return [(st, e.cmp_term("lt", e.snap(st, e.proj(st, v, ("f", "end"))),
                                    e.snap(st, e.proj(st, v, ("f", "start")))))]
        if nm == "contains":
            v = e.snap(st, a)
            x = e.snap(st, args[1])
            return [(st, mk("call", "op:and", (e.cmp_term("le", e.proj(st, v, ("f", "start")), x),
                                               e.cmp_term("le", x, e.proj(st, v, ("f", "end"))))))]
    # ---- numbers
    if e.is_prim(fn) and "MultiKeyMap" in (target + d):
        r = twokey(e, st, nm, args, site, span, te, fn, target)
        if r is not None:
            return r
    if e.is_prim(fn) and "checked_amount" in (target + d):
        return amount(e, st, nm, args, site, span, te, fn, target)
    if NUM.match(d) and target not in e.p.bodies:
        return number(e, st, d, nm, args, site, span, te)
    if d.startswith("core::time::Duration::"):
        return [(st, mk("call", "op:duration_" + nm, tuple(e.snap(st, a) for a in args)))]
    if nm == "set_timer_interval" or nm == "set_timer" or nm == "spawn":
        return None
    return None


def default_for(ty):
    if ty.startswith("core::option"):
        return NONE
    if re.match(r"(alloc|std)::(vec|collections)|std::collections", ty):
        return EMPTY
    if re.match(r"[ui](8|16|32|64|128|size)$", ty):
        return kint(0)
    if ty == "bool":
        return FALSE
    if ty == "()":
        return UNIT
    if ty == "alloc::string::String":
        return mk("k", "str", "")
    return mk("k", "default", ty)


def optres(e, st, d, nm, args, site, span, te):
    isopt = d.startswith(OPT)
    good, bad = ("Some", "None") if isopt else ("Ok", "Err")
    G = some if isopt else ok

    def B(p):
        return NONE if isopt else err(p)

    def cv(s, f, a):
        return e.call_value(s, f, a, site, span)

    if nm in ("is_some", "is_ok"):
        return [(st, isv(e, st, args[0], good))]
    if nm in ("is_none", "is_err"):
        return [(st, isv(e, st, args[0], bad) if not isopt else e.neg(isv(e, st, args[0], good)))]
    if nm == "iter":
        if not isopt:
            return None
        return [(s, mk("iter", agg("[]", None, (("0", p),)) if g else EMPTY, ())) for g, s, p in split(e, st, args[0], good, bad, False)]
    if nm in ("as_ref", "as_deref", "as_deref_mut"):
        return [(st, args[0])]
    if nm == "as_mut":
        outs = []
        for g, s, p in split(e, st, args[0], good, bad, not isopt):
            outs.append((s, G(p) if g else B(p)))
        return outs
    if nm in ("expect", "unwrap", "unwrap_unchecked"):
        outs = []
        for g, s, p in split(e, st, args[0], good, bad, not isopt):
            if g:
                outs.append((s, p))
            else:
                panic(e, s, "unwrap", span, site)
        return outs
    if nm in ("expect_err", "unwrap_err"):
        return [(s, p) for g, s, p in split(e, st, args[0], good, bad, True) if not g]
    if nm in ("take", "replace", "insert", "get_or_insert", "get_or_insert_with"):
        loc = e.deref(st, args[0])
        old = e.read(st, loc)
        if nm == "take":
            e.assign(st, loc, NONE, span, site)
            return [(st, old)]
        if nm in ("replace", "insert"):
            e.assign(st, loc, some(args[1]), span, site)
            return [(st, old if nm == "replace" else mk("ref", loc[0], loc[1] + (("vf", "Some", "0"),)))]
        return None
    outs = []
    for g, s, p in split(e, st, args[0], good, bad, not isopt):
        if nm == "map":
            outs += [(s2, G(v)) for s2, v in cv(s, args[1], [p])] if g else [(s, B(p))]
        elif nm == "map_err":
            outs += [(s, ok(p))] if g else [(s2, err(v)) for s2, v in cv(s, args[1], [p])]
        elif nm == "and_then":
            outs += cv(s, args[1], [p]) if g else [(s, B(p))]
        elif nm == "and":
            outs += [(s, args[1])] if g else [(s, B(p))]
        elif nm == "or":
            outs += [(s, G(p))] if g else [(s, args[1])]
        elif nm == "or_else":
            outs += [(s, G(p))] if g else cv(s, args[1], [] if isopt else [p])
        elif nm == "unwrap_or":
            outs.append((s, p if g else args[1]))
        elif nm == "unwrap_or_else":
            outs += [(s, p)] if g else cv(s, args[1], [] if isopt else [p])
        elif nm == "unwrap_or_default":
            outs.append((s, p if g else default_for(te["destty"] if te else "")))
        elif nm == "ok_or":
            outs.append((s, ok(p) if g else err(args[1])))
        elif nm == "ok_or_else":
            outs += [(s, ok(p))] if g else [(s2, err(v)) for s2, v in cv(s, args[1], [])]
        elif nm == "ok":
            outs.append((s, some(p) if g else NONE))
        elif nm == "err":
            outs.append((s, NONE if g else some(p)))
        elif nm == "filter":
            if not g:
                outs.append((s, NONE))
            else:
                h = hold(e, s, p, site)
                for s2, b in cv(s, args[1], [h]):
                    v2 = unhold(e, s2, h)
                    bs = e.snap(s2, b)
                    outs += [(s3, some(v2)) for s3 in e.assume_bool(s2.copy(), bs, True)]
                    outs += [(s3, NONE) for s3 in e.assume_bool(s2.copy(), bs, False)]
        elif nm in ("is_some_and", "is_ok_and"):
            outs += cv(s, args[1], [p]) if g else [(s, FALSE)]
        elif nm == "is_none_or":
            outs += cv(s, args[1], [p]) if g else [(s, TRUE)]
        elif nm == "is_err_and":
            outs += cv(s, args[1], [p]) if not g else [(s, FALSE)]
        elif nm == "map_or":
            outs += cv(s, args[2], [p]) if g else [(s, args[1])]
        elif nm == "map_or_else":
            outs += cv(s, args[2], [p]) if g else cv(s, args[1], [] if isopt else [p])
        elif nm in ("inspect", "inspect_err"):
            if g == (nm == "inspect"):
                h = hold(e, s, p, site)
                for s2, _ in cv(s, args[1], [h]):
                    v2 = unhold(e, s2, h)
                    outs.append((s2, G(v2) if g else err(v2)))
            else:
                outs.append((s, G(p) if g else B(p)))
        elif nm == "flatten":
            outs.append((s, p if g else B(p)))
        elif nm == "zip":
            if g:
                for g2, s2, p2 in split(e, s, args[1], "Some", "None", False):
                    outs.append((s2, some(tup(p, p2)) if g2 else NONE))
            else:
                outs.append((s, NONE))
        elif nm == "transpose":
            if isopt:  # Option<Result> -> Result<Option>
                if not g:
                    outs.append((s, ok(NONE)))
                else:
                    for g2, s2, p2 in split(e, s, p, "Ok", "Err", True):
                        outs.append((s2, ok(some(p2)) if g2 else err(p2)))
            else:
                if not g:
                    outs.append((s, some(err(p))))
                else:
                    for g2, s2, p2 in split(e, s, p, "Some", "None", False):
                        outs.append((s2, some(ok(p2)) if g2 else NONE))
        else:
            return None
    return fin(e, st, outs)


def isv(e, st, a, variant):
    v = val(e, st, a)
    k = e.variant_known(st, v)
    if isinstance(k, str):
        return kbool(k == variant)
    if isinstance(k, frozenset) and variant in k:
        return FALSE
    if v.k == "case":
        return e.mkcase([(f, isv(e, st, x, variant)) for f, x in v.a[0]])
    key, mapf = e.norm_variant(v)
    if mapf is not None:
        return key if mapf[True] == variant else e.neg(key)
    return mk("isv", v, variant)


def collect_into(e, st, it, outs, pure, destty):
    if destty.startswith("core::result::Result") or destty.startswith("core::option::Option"):
        good, bad = ("Ok", "Err") if "result" in destty[:14] else ("Some", "None")
        goods, bads = [], []
        for s, v in outs:
            for s2 in e.assume_variant(s.copy(), e.resolve(s, v), good):
                goods.append((s2, e.proj(s2, e.resolve(s2, v), ("vf", good, "0"))))
            for s2 in e.assume_variant(s.copy(), e.resolve(s, v), bad):
                bads.append((s2, err(e.proj(s2, e.resolve(s2, v), ("vf", "Err", "0"))) if bad == "Err" else NONE))
        arms = tuple((delta(st, s), e.snap(s, v)) for s, v in goods)
        c = mk("coll", it.a[0], arms)
        t = mk("call", "op:collect", (c,))
        if not bads and pure:           # conversions that cannot fail
            return [(st, ok(c) if good == "Ok" else some(c))]
        res = []
        for s in e.assume_variant(st.copy(), t, good):
            res.append((s, ok(c) if good == "Ok" else some(c)))
        for s0, v in bads:
            for s in e.assume_variant(s0, t, bad):
                s.mem = dict(st.mem) if pure else s.mem
                res.append((s, v))
        return e.collapse(st, res) if pure else res
    c = coll_of(e, st, it, outs)
    return [(st, c)] if pure else after(e, st, outs, c)


ADAPT_F = {"map", "filter", "filter_map", "flat_map", "take_while", "skip_while", "map_while", "inspect"}
PICKING = {"filter", "filter_map", "flat_map", "flatten", "take_while", "skip_while", "map_while"}
ADAPT_N = {"enumerate", "take", "skip", "rev", "cloned", "copied", "peekable", "fuse", "step_by", "by_ref", "cycle"}


def iterop(e, st, d, nm, args, site, span, te, fn, target):
    if target in e.p.bodies and e.want_inline(target):
        return None
    if d == "core::iter::sources::once::once":
        return [(st, mk("iter", agg("[]", None, (("0", args[0]),)), ()))]
    if d == "core::iter::sources::empty::empty":
        return [(st, mk("iter", EMPTY, ()))]
    if d == "core::iter::traits::collect::FromIterator::from_iter":
        it = as_iter(e, st, args[0])
        outs, pure = run_iter(e, st, it, site, span)
        return collect_into(e, st, it, outs, pure, te["destty"] if te else "")
    if nm in ADAPT_F:
        it = as_iter(e, st, args[0])
        if nm in ("take_while", "skip_while", "map_while"):  # a part of the source only
            it = mk("iter", mk("call", "op:" + nm, (it.a[0],)), it.a[1])
        return [(st, add_stage(it, nm, args[1]))]
    if nm == "flatten":
        return [(st, add_stage(as_iter(e, st, args[0]), "flatten"))]
    if nm in ADAPT_N:
        if nm in ("cloned", "copied"):
            return [(st, add_stage(as_iter(e, st, args[0]), "cloned"))]
        if nm == "by_ref":
            return [(st, args[0])]
        if nm in ("take", "skip", "step_by"):  # a part of the source only
            it = as_iter(e, st, args[0])
            if e.cfg.exact and any(g[0] in PICKING or g[0] == "enumerate" and nm != "take" for g in it.a[1]):
                outs, pure = run_iter(e, st.copy(), it, tuple(site) + ("t",), span)
                if pure:                # a part of what was selected, not a selection of a part
                    it = mk("iter", coll_of(e, st, it, outs), ())
            return [(st, mk("iter", mk("call", "op:" + nm, (it.a[0],) + tuple(e.snap(st, a) for a in args[1:])), it.a[1]))]
        return [(st, add_stage(as_iter(e, st, args[0]), nm, *[e.snap(st, a) for a in args[1:]]))]
    if nm == "chain" and e.cfg.exact:
        its = []
        for i, a in enumerate(args[:2]):
            it = as_iter(e, st, a)
            if it.a[1]:
                outs, pure = run_iter(e, st.copy(), it, tuple(site) + ("c%d" % i,), span)
                if pure:
                    it = mk("iter", coll_of(e, st, it, outs), ())
            its.append(it)
        return [(st, mk("iter", mk("chain", tuple(its)), ()))]
    if nm == "chain":
        return [(st, mk("iter", mk("chain", (as_iter(e, st, args[0]), as_iter(e, st, args[1]))), ()))]
    if nm == "zip":
        return [(st, mk("iter", mk("zip", as_iter(e, st, args[0]), as_iter(e, st, args[1])), ()))]
    it = as_iter(e, st, args[0])
    if nm == "next" and e.cfg.exact and len(site) == 2 and e.stack and args[0].k == "ref" and args[0].a[0][:2] == ("L", site[0]) and \
            not any(site[1] in l["nodes"] for l in e.p.prep(e.stack[-1])["loops"].values() if not l["await"]):
        outs, pure = run_iter(e, st, it, site, span)        # not in a loop: the first element
        if pure:
            c = coll_of(e, st, it, outs)
            if c.k == "agg" and c.a[0] == "[]":
                r = some(c.a[2][0][1]) if c.a[2] else NONE
                rest = mk("agg", "[]", c.a[1], tuple((str(i), v) for i, (_, v) in enumerate(c.a[2][1:])))
            else:
                r, rest = mk("call", "op:first", (c,)), mk("call", "op:skip", (c, mk("k", "int", 1)))
            e.assign(st, (args[0].a[0], args[0].a[1]), mk("iter", rest, ()), span, site)
            return [(st, r)]
    if nm == "next" and e.round and e.round[-1][0] == site[0] and args[0].k == "ref" and args[0].a[0][:2] == ("L", site[0]) and \
            it.a[0].k == "agg" and it.a[0].a[0] == "[]":
        if not it.a[0].a[2]:
            return [(st, NONE)]
        outs = []
        for s, v in iter_elems(e, st.copy(), mk("iter", mk("agg", "[]", it.a[0].a[1], (("0", it.a[0].a[2][0][1]),)), it.a[1]), site, span):
            rest = mk("agg", "[]", it.a[0].a[1], tuple((str(i), x) for i, (_, x) in enumerate(it.a[0].a[2][1:])))
            e.assign(s, (args[0].a[0], args[0].a[1]), mk("iter", rest, it.a[1]), span, site)
            outs.append((s, some(v)))
        return outs
    if nm in ("next", "next_back", "last", "nth"):
        outs = []
        t = mk("call", "op:next", (mk("iter", it.a[0], ()), e.uid(site)))
        rej = [] if e.cfg.exact and nm == "next" else None
        for s, v in iter_elems(e, st.copy(), it, site, span, rej):
            for s2 in e.assume_variant(s, t, "Some"):
                outs.append((s2, some(v)))
        for s in rej or ():             # an element passed over
            for s2 in e.assume_variant(s, t, "Some"):
                e.backs.append((None, site[0], ("skip",) + tuple(site[1:]), s2))
        empty = it.a[0].k == "agg" and it.a[0].a[0] == "[]"
        for s2 in e.assume_variant(st.copy(), t, "None"):
            outs.append((s2, NONE))
        return outs
    if nm in ("collect", "count", "sum", "product", "max", "min", "last"):
        outs, pure = run_iter(e, st, it, site, span)
        if nm == "collect":
            return collect_into(e, st, it, outs, pure, te["destty"] if te else "")
        c = coll_of(e, st, it, outs)
        t = mk("call", "op:" + nm + "_of", (c,))
        return [(st, t)] if pure else after(e, st, outs, t)
    if nm in ("any", "all"):
        outs, pure = run_iter(e, st, it, site, span)
        res = []
        for s, v in outs:
            res += e.call_value(s, args[1], [v], tuple(site) + ("p",), span)
        pure = pure and all(s.trace == st.trace for s, _ in res)
        pred = e.mkcase([(delta(st, s), e.snap(s, v)) for s, v in res])
        if nm == "all":
            t = e.neg(mk("call", "op:any", (it.a[0], e.neg(pred))))
        else:
            t = mk("call", "op:any", (it.a[0], pred))
        if it.a[0].k == "agg" and it.a[0].a[0] == "[]" and len(it.a[0].a[2]) < 2:
            t = pred if it.a[0].a[2] else kbool(nm == "all")
        return [(st, t)] if pure else after(e, st, res, t)
    if nm in ("find", "find_map", "position"):
        outs, pure = run_iter(e, st, it, site, span)
        t = mk("call", "op:find", (it.a[0], e.uid(site)))
        if nm != "position" and e.cfg.exact:        # whether there is such an element
            n = len(e.events)
            it2 = add_stage(it, "filter" if nm == "find" else "filter_map", args[1])
            outs2, pure2 = run_iter(e, st, it2, site, span)
            del e.events[n:]
            c = coll_of(e, st, it2, outs2)
            if pure and pure2 and c.k == "coll":
                t = mk("call", "op:first", (c,))
        res = []
        for s, v in outs:
            if nm == "find_map":
                for s2, r in e.call_value(s, args[1], [v], tuple(site) + ("p",), span):
                    for s3 in e.assume_variant(s2, r, "Some"):
                        for s4 in e.assume_variant(s3, t, "Some"):
                            res.append((s4, some(e.proj(s4, e.resolve(s4, r), ("vf", "Some", "0")))))
            else:
                h = hold(e, s, v, site) if nm == "find" else v
                for s2, b in e.call_value(s, args[1], [h], tuple(site) + ("p",), span):
                    v2 = unhold(e, s2, h) if nm == "find" else v
                    for s3 in e.assume_bool(s2, e.snap(s2, b), True):
                        for s4 in e.assume_variant(s3, t, "Some"):
                            res.append((s4, some(v2 if nm == "find" else mk("idx", e.uid(site)))))
        for s in e.assume_variant(st.copy(), t, "None"):
            res.append((s, NONE))
        return fin(e, st, res)
    if nm == "for_each" and e.cfg.exact:
        return loop_each(e, st, it, args[1], site, span)
    if nm == "for_each":
        outs, pure = run_iter(e, st, it, site, span)
        res = []
        for s, v in outs:
            res += e.call_value(s, args[1], [v], tuple(site) + ("p",), span)
        return after(e, st, res, UNIT)
    if nm in ("try_for_each",):
        outs, pure = run_iter(e, st, it, site, span)
        res = []
        for s, v in outs:
            res += e.call_value(s, args[1], [v], tuple(site) + ("p",), span)
        return [(st, ok(UNIT))] + res
    if nm == "fold" and e.cfg.exact:
        r = loop_fold(e, st, it, args[1], args[2], site, span)
        if r is not None:
            return r
    if nm in ("fold", "try_fold"):
        outs, pure = run_iter(e, st, it, site, span)
        acc = mk("phi", "acc", e.uid(site))
        e.phi_in.setdefault(acc, set()).add(args[1])
        res = []
        for s, v in outs:
            res += e.call_value(s, args[2], [acc, v], tuple(site) + ("p",), span)
        vals = []
        for s, v in res:
            e.phi_in[acc].add(e.snap(s, v))
            vals.append((delta(st, s), e.snap(s, v)))
        t = mk("call", "op:fold", (e.snap(st, args[1]), e.mkcase(vals), it.a[0]))
        return [(st, t)] if all(s.trace == st.trace for s, _ in res) else after(e, st, res, t)
    if nm == "reduce":
        return None
    if nm in ("max_by_key", "min_by_key", "max_by", "min_by"):
        outs, pure = run_iter(e, st, it, site, span)
        c = coll_of(e, st, it, outs)
        return [(st, mk("call", "op:" + nm, (c, e.snap(st, args[1]))))]
    if nm == "partition":
        outs, pure = run_iter(e, st, it, site, span)
        yes, no = [], []
        for s, v in outs:
            h = hold(e, s, v, site)
            for s2, b in e.call_value(s, args[1], [h], tuple(site) + ("p",), span):
                v2 = unhold(e, s2, h)
                bs = e.snap(s2, b)
                yes += [(s3, v2) for s3 in e.assume_bool(s2.copy(), bs, True)]
                no += [(s3, v2) for s3 in e.assume_bool(s2.copy(), bs, False)]
        mkc = lambda l: mk("coll", it.a[0], tuple((delta(st, s), e.snap(s, v)) for s, v in l))
        return [(st, tup(mkc(yes), mkc(no)))]
    if nm == "unzip":
        outs, pure = run_iter(e, st, it, site, span)
        c0 = mk("coll", it.a[0], tuple((delta(st, s), e.snap(s, e.proj(s, v, ("f", "0")))) for s, v in outs))
        c1 = mk("coll", it.a[0], tuple((delta(st, s), e.snap(s, e.proj(s, v, ("f", "1")))) for s, v in outs))
        t = tup(c0, c1)
        return [(st, t)] if pure else after(e, st, outs, t)
    if nm in ("peek", "size_hint", "len"):
        return [(st, mk("call", "op:" + nm, (e.snap(st, it.a[0]), e.uid(site))))]
    return None


def byte_len(e, v, st=None):
    """length of a byte sequence, when it is a constant"""
    from pure import opname, kval
    if v in e.arrlen:
        return e.arrlen[v]
    if v.k == "k" and v.a[0] == "raw":
        return len(v.a[1]) // 2
    o = opname(v)
    if o in ("split_l", "split_r") and len(v.a[1]) == 2 and kval(v.a[1][1]) is not None:
        n = byte_len(e, v.a[1][0], st)
        if n is not None:
            return kval(v.a[1][1]) if o == "split_l" else n - kval(v.a[1][1])
    if o == "slice" and len(v.a[1]) == 2 and v.a[1][1].k == "agg":
        f = dict(v.a[1][1].a[2])
        lo, hi = kval(f["start"]) if "start" in f else 0, kval(f["end"]) if "end" in f else byte_len(e, v.a[1][0], st)
        if hi is None and lo is not None and "end" not in f:
            ln = mk("call", "op:len", (v.a[1][0],))
            for a, x in st.facts.items() if st is not None else ():
                if opname(a) in ("eq", "ne") and ln in a.a[1] and x is (opname(a) == "eq"):
                    hi = kval(a.a[1][1] if a.a[1][0] is ln else a.a[1][0])
        if "Inclusive" not in v.a[1][1].a[0] and lo is not None and hi is not None:
            return hi - lo
    return None


def strip_push(t):
    return t


def collop(e, st, d, nm, args, site, span, te, fn):
    a0 = e.resolve(st, args[0]) if args else None
    kind = "set" if re.search(r"(BTreeSet|HashSet)", d) else "map" if re.search(r"(BTreeMap|HashMap)", d) else "seq"

    def S(i):
        return e.snap(st, args[i])

    if nm in ("new", "with_capacity") and not (args and nm == "new"):
        return [(st, EMPTY)]
    if "entry::" in d:
        return entryop(e, st, d, nm, args, site, span)
    if nm in ("len",):
        v = S(0)
        if v.k == "agg" and v.a[0] == "[]":
            return [(st, kint(len(v.a[2])))]
        return [(st, mk("call", "op:len", (v,)))]
    if nm == "is_empty":
        v = S(0)
        if v.k == "agg" and v.a[0] == "[]":
            return [(st, kbool(not v.a[2]))]
        if v.k == "mutd" and v.a[1] in ("op:push", "op:insert", "op:push_front"):
            return [(st, FALSE)]
        return [(st, mk("call", "op:is_empty", (v,)))]
    if kind == "map":
        if nm in ("get", "get_mut"):
            m, k = S(0), S(1)
            r = map_get(e, st, m, k)
            if a0.k == "ref" and r.k == "call":
                outs = [(s, some(mk("ref", a0.a[0], a0.a[1] + (("i", k),)))) for s in e.assume_variant(st.copy(), r, "Some")]
                outs += [(s, NONE) for s in e.assume_variant(st.copy(), r, "None")]
                return fin(e, st, outs)
            return [(st, r)]
        if nm == "get_key_value":
            r = map_get(e, st, S(0), S(1))
            outs = [(s, some(tup(S(1), e.proj(s, r, ("vf", "Some", "0"))))) for s in e.assume_variant(st.copy(), r, "Some")]
            outs += [(s, NONE) for s in e.assume_variant(st.copy(), r, "None")]
            return fin(e, st, outs)
        if nm == "contains_key":
            return [(st, isv(e, st, map_get(e, st, S(0), S(1)), "Some"))]
        if nm == "insert":
            old = map_get(e, st, S(0), S(1))
            return mutate(e, st, a0, "op:insert", [S(1), args[2]], span, site, old)
        if nm == "remove":
            old = map_get(e, st, S(0), S(1))
            return mutate(e, st, a0, "op:remove", [args[1]], span, site, old)
        if nm == "remove_entry":
            k = S(1)
            old = map_get(e, st, S(0), k)
            res = []
            for s in e.assume_variant(st.copy(), old, "Some"):
                res += mutate(e, s, a0, "op:remove", [args[1]], span, site, some(tup(k, e.proj(s, old, ("vf", "Some", "0")))))
            for s in e.assume_variant(st.copy(), old, "None"):
                res.append((s, NONE))
            return res
        if nm == "entry":
            k = S(1)
            g = map_get(e, st, S(0), k)
            E = "alloc::collections::btree::map::entry::Entry"
            ent = agg("entry", None, (("map", a0), ("key", k)))
            outs = [(s, agg(E, "Occupied", (("0", ent),))) for s in e.assume_variant(st.copy(), g, "Some")]
            outs += [(s, agg(E, "Vacant", (("0", ent),))) for s in e.assume_variant(st.copy(), g, "None")]
            return outs
        if nm in ("pop_first", "pop_last"):
            m = S(0)
            t = mk("call", "op:" + nm, (m,))
            return mutate(e, st, a0, "op:" + nm, [], span, site, t)
        if nm in ("first_key_value", "last_key_value", "range", "first_entry", "last_entry"):
            return [(st, mk("call", "op:" + nm, tuple(S(i) for i in range(len(args)))))]
        if nm in ("clear", "retain", "append"):
            return mutate(e, st, a0, "op:" + nm, args[1:], span, site, UNIT)
    if kind == "set":
        if nm == "contains":
            return [(st, set_contains(e, st, S(0), S(1)))]
        if nm == "insert":
            c = set_contains(e, st, S(0), S(1))
            return mutate(e, st, a0, "op:insert", [args[1]], span, site, e.neg(c))
        if nm == "remove":
            c = set_contains(e, st, S(0), S(1))
            return mutate(e, st, a0, "op:remove", [args[1]], span, site, c)
        if nm in ("get", "take"):
            m, k = S(0), S(1)
            t = mk("call", "op:setget", (m, k))
            if nm == "take":
                return mutate(e, st, a0, "op:remove", [args[1]], span, site, t)
            return [(st, t)]
        if nm in ("clear", "retain", "append"):
            return mutate(e, st, a0, "op:" + nm, args[1:], span, site, UNIT)
        if nm in ("iter", "range", "union", "difference", "intersection", "first", "last", "pop_first", "pop_last"):
            return [(st, mk("call", "op:" + nm, tuple(S(i) for i in range(len(args)))))]
    # sequences
    if nm in ("push", "push_back", "push_front", "push_str", "insert", "insert_str", "append", "truncate", "clear", "retain",
              "retain_mut", "sort", "sort_by", "sort_by_key", "sort_unstable", "sort_unstable_by", "sort_unstable_by_key",
              "dedup", "reverse", "extend_from_slice", "resize", "swap", "fill", "rotate_left", "rotate_right",
              "select_nth_unstable", "dedup_by_key", "sort_by_cached_key"):
        op = {"push_back": "op:push"}.get(nm, "op:" + nm)
        if nm in ("retain", "retain_mut"):
            it = as_iter(e, st, a0)
            for s, v in iter_elems(e, st.copy(), it, site, span):
                h = hold(e, s, v, site)
                e.call_value(s, args[1], [h], tuple(site) + ("p",), span)
        res = UNIT
        if nm == "select_nth_unstable":
            res = mk("call", "op:select_nth", (S(0), S(1)))
        return mutate(e, st, a0, op, args[1:], span, site, res)
    if nm in ("pop", "pop_back", "pop_front", "remove", "swap_remove", "split_off", "drain"):
        m = S(0)
        t = mk("call", "op:" + nm, (m,) + tuple(S(i) for i in range(1, len(args))))
        return mutate(e, st, a0, "op:" + nm, args[1:], span, site, t)
    if nm in ("get", "get_mut") and kind == "seq":
        i = S(1)
        if i.k == "agg":
            return [(st, mk("call", "op:get", (S(0), i)))]
        r = map_get(e, st, S(0), i)
        v = val(e, st, a0)
        if v.k == "agg" and v.a[0] == "[]" and i.k == "k":
            return [(st, some(v.a[2][i.a[1]][1]) if i.a[1] < len(v.a[2]) else NONE)]
        return [(st, r)]
    if nm in ("first", "last", "first_mut", "last_mut", "front", "back"):
        v = val(e, st, a0)
        if v.k == "agg" and v.a[0] == "[]":
            if not v.a[2]:
                return [(st, NONE)]
            return [(st, some(v.a[2][0 if nm.startswith("f") else -1][1]))]
        return [(st, mk("call", "op:" + {"front": "first", "back": "last"}.get(nm.replace("_mut", ""), nm.replace("_mut", "")),
                        (S(0),)))]
    if nm == "contains":
        if te and "str" in te["argtys"][0][:6]:
            return [(st, mk("call", "op:str_contains", (S(0), S(1))))]
        return [(st, set_contains(e, st, S(0), S(1)))]
    if nm in ("copy_from_slice", "clone_from_slice"):
        e.assign(st, e.deref(st, a0), S(1), span, site)
        return [(st, UNIT)]
    if nm in ("split_at",):
        return [(st, tup(mk("call", "op:split_l", (S(0), S(1))), mk("call", "op:split_r", (S(0), S(1)))))]
    if nm in ("chunks", "chunks_exact", "windows", "chars", "bytes", "lines", "split", "char_indices"):
        return [(st, mk("iter", mk("call", "op:" + nm, tuple(S(i) for i in range(len(args)))), ()))]
    if nm in ("into_iter", "iter", "iter_mut"):
        return [(st, as_iter(e, st, a0))]
    if all(not x.startswith("&mut") for x in (te["argtys"] if te else ["&mut"])):
        if not any(e.resolve(st, a).k == "clo" for a in args):
            return [(st, mk("call", "op:" + nm, tuple(S(i) for i in range(len(args)))))]
    return None


def entryop(e, st, d, nm, args, site, span):
    ent = val(e, st, args[0])
    if ent.k == "agg" and ent.a[0].endswith("entry::Entry"):
        inner = ent.a[2][0][1]
        occ = ent.a[1] == "Occupied"
    else:
        inner, occ = ent, "Occupied" in d
    if inner.k != "agg" or inner.a[0] != "entry":
        return None
    f = dict(inner.a[2])
    m, k = f["map"], f["key"]
    slot = mk("ref", m.a[0], m.a[1] + (("i", k),)) if m.k == "ref" else mk("phi", "entry")
    if nm == "insert" and "Vacant" in d:
        mutate(e, st, m, "op:insert", [k, args[1]], span, site, UNIT)
        return [(st, slot)]
    if nm == "insert" and "Occupied" in d:
        old = e.snap(st, slot)
        mutate(e, st, m, "op:insert", [k, args[1]], span, site, UNIT)
        return [(st, old)]
    if nm in ("get", "get_mut", "into_mut"):
        return [(st, slot)]
    if nm == "key":
        return [(st, k)]
    if nm in ("remove", "remove_entry"):
        old = e.snap(st, slot)
        mutate(e, st, m, "op:remove", [k], span, site, UNIT)
        return [(st, old if nm == "remove" else tup(k, old))]
    if nm in ("or_insert", "or_insert_with", "or_default"):
        if occ:
            return [(st, slot)]
        outs = []
        vs = [(st, args[1])] if nm == "or_insert" else e.call_value(st, args[1], [], site, span) if nm == "or_insert_with" \
            else [(st, mk("k", "default", ""))]
        for s, v in vs:
            mutate(e, s, m, "op:insert", [k, v], span, site, UNIT)
            outs.append((s, slot))
        return outs
    if nm == "and_modify":
        if not occ:
            return [(st, ent)]
        return [(s, ent) for s, _ in e.call_value(st, args[1], [slot], site, span)]
    return None


def mk_lookup(e, st, m, k, op):
    """two-key map lookup by primary (mget) or alternative (get_alt) key on a snapshot term"""
    m = e.resolve(st, m)
    if m.k == "mutd" and m.a[1] == "op:try_insert":
        if m.a[2][0 if op == "op:mget" else 1] is k:
            return some(m.a[2][2])
    if m.k == "mutd" and m.a[1] == "op:remove_entry" and op == "op:mget" and m.a[2][0] is k:
        return NONE
    if m.k == "mutd" and m.a[1] == "op:remove_entry" and op == "op:get_alt" and \
            mk("call", "op:alt", (m.a[0], m.a[2][0])) is k:
        return NONE
    if m.k == "upd" and op == "op:mget":
        for el, v in m.a[1]:
            if el == ("i", k):
                return some(v)
    return mk("call", op, (m, k))


def twokey(e, st, nm, args, site, span, te, fn, target):
    """MultiKeyMap / DedupMultiKeyMap: a map with two keys per value (their own methods are checked by another rule)"""
    if nm not in ("try_insert", "get", "get_alt", "contains", "contains_alt", "get_entry", "get_entry_alt", "remove_entry", "get_mut"):
        return None
    a0 = e.resolve(st, args[0])
    m = e.snap(st, args[0])
    dedup = "Dedup" in target
    if nm == "try_insert":
        k, alt, v = (e.snap(st, x) for x in args[1:4])
        t = mk("call", "op:try_insert" + ("_dedup" if dedup else ""), (m, k, alt, v))
        res = []
        for s in e.assume_variant(st.copy(), t, "Ok"):
            res += mutate(e, s, a0, "op:try_insert", [k, alt, v], span, site, ok(UNIT))
        for s in e.assume_variant(st.copy(), t, "Err"):
            res.append((s, err(mk("vf", t, "Err", "0"))))
        return res
    k = e.snap(st, args[1])
    if nm in ("get", "get_alt"):
        return [(st, mk_lookup(e, st, m, k, "op:mget" if nm == "get" else "op:get_alt"))]
    if nm in ("contains", "contains_alt"):
        return [(st, isv(e, st, mk_lookup(e, st, m, k, "op:mget" if nm == "contains" else "op:get_alt"), "Some"))]
    if nm == "get_mut":
        r = mk_lookup(e, st, m, k, "op:mget")
        if a0.k == "ref" and r.k == "call":
            outs = [(s, some(mk("ref", a0.a[0], a0.a[1] + (("i", k),)))) for s in e.assume_variant(st.copy(), r, "Some")]
            outs += [(s, NONE) for s in e.assume_variant(st.copy(), r, "None")]
            return fin(e, st, outs)
        return None
    r = mk_lookup(e, st, m, k, "op:get_alt" if nm == "get_entry_alt" else "op:mget")
    other = mk("call", "op:altkey" if nm == "get_entry_alt" else "op:alt", (m, k))
    if nm in ("get_entry", "get_entry_alt"):
        outs = [(s, some(tup(other, e.proj(s, r, ("vf", "Some", "0"))))) for s in e.assume_variant(st.copy(), r, "Some")]
        outs += [(s, NONE) for s in e.assume_variant(st.copy(), r, "None")]
        return fin(e, st, outs)
    if r.k != "call":
        res = NONE if r is NONE else some(tup(k, other, r.a[2][0][1]))
    else:
        res = e.mkcase([(((mk("is", r), "Some"),), some(tup(k, other, mk("vf", r, "Some", "0")))), (((mk("is", r), "None"),), NONE)])
    return mutate(e, st, a0, "op:remove_entry", [args[1]], span, site, res)      # removing an absent key changes nothing


def amount(e, st, nm, args, site, span, te, fn, target):
    """CheckedAmountOf: a number with overflow-checked arithmetic (its own methods are checked by another rule)"""
    sn = tuple(e.snap(st, a) for a in args)
    if nm in ("new", "from", "into", "change_units", "into_inner", "from_inner", "clone", "get", "as_ref"):
        return [(st, sn[0])]
    if nm in CMP_NAMES:
        return [(st, e.cmp_term(nm, sn[0], sn[1]))]
    if nm == "checked_increment":
        return [(st, mk("call", "op:checked_inc", sn))]
    if nm == "checked_decrement":
        return [(st, mk("call", "op:checked_dec", sn))]
    if nm in ("checked_add", "checked_sub", "checked_mul", "checked_div_ceil", "checked_div_floor", "checked_div"):
        return [(st, mk("call", "op:" + nm, sn))]
    if nm in ("try_from", "try_into"):
        return [(st, mk("call", "op:try_into", sn[:1]))]
    if nm in ("cmp", "partial_cmp"):
        return [(st, mk("call", "op:cmp", sn))]
    if nm in ("max", "min"):
        return [(st, mk("call", "op:" + nm, tuple(sorted(sn, key=lambda z: z.h))))]
    return [(st, mk("call", "op:" + nm, sn))]


CMP_NAMES = ("eq", "ne", "lt", "le", "gt", "ge")


def number(e, st, d, nm, args, site, span, te):
    sn = tuple(e.snap(st, a) for a in args)
    if nm.endswith("_assign") and args[0].k == "ref":
        op = nm[:-7]
        e.assign(st, e.deref(st, args[0]), mk("call", "op:" + op, sn), span, site)
        return [(st, UNIT)]
    if nm in ("new",):
        return [(st, sn[0])]
    if nm in ("add", "mul", "saturating_add", "saturating_mul", "wrapping_add", "bitand", "bitor", "bitxor") and len(sn) == 2:
        pass
    if nm == "sub" and d.startswith("core::ops::arith"):
        e.emit(st.copy(), "panic", "sub", sn, (), span, site)
    return [(st, mk("call", "op:" + nm, sn))]


def template(h):
    """literal pieces and placeholders of a compiled format template"""
    b = bytes.fromhex(h)
    i, out = 0, []
    while i < len(b):
        n = b[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            out.append(b[i:i + n].decode("utf8", "replace"))
            i += n
        elif n == 0x80:
            k = b[i] | b[i + 1] << 8
            out.append(b[i + 2:i + 2 + k].decode("utf8", "replace"))
            i += 2 + k
        else:
            o = "{"
            if n & 1:
                o += "f%x" % int.from_bytes(b[i:i + 4], "little")
                i += 4
            if n & 2:
                o += "w%d" % (b[i] | b[i + 1] << 8)
                i += 2
            if n & 4:
                o += "p%d" % (b[i] | b[i + 1] << 8)
                i += 2
            if n & 8:
                o += "a%d" % (b[i] | b[i + 1] << 8)
                i += 2
            out.append(o + "}")
    return "\x00".join(out)


def shown_as(e, st, fn, d, args, site, span):
    """format!("{}", x) is x.to_string(); any other text is not kept"""
    from pure import opname
    nm = fn.get("name") or short(d)
    if "rt::Argument" in d and nm == "new_display":
        own = ((fn.get("res") or fn).get("args") or [""])[0].lstrip("&") in ("alloc::string::String", "str")
        return [(st, mk("call", "fmt:text" if own else "fmt:display", (e.snap(st, args[0]),)))]
    if "fmt::Arguments" in d and nm == "new" and len(args) == 2:
        t, a = e.snap(st, args[0]), e.snap(st, args[1])
        if t.k == "k" and t.a[0] == "raw" and template(str(t.a[1])) == "{}" and a.k == "agg" and len(a.a[2]) == 1:
            v = a.a[2][0][1]
            if opname(v) in ("fmt:text", "fmt:display"):
                return [(st, v)]
    if d.startswith("alloc::fmt::format"):
        v = e.snap(st, args[0])
        if opname(v) == "fmt:text":
            return [(st, v.a[1][0])]
        if opname(v) == "fmt:display":
            return [(st, mk("call", "op:to_string", v.a[1]))]
    return None


def formatting(e, st, fn, d, args, site, span):
    """format_args!/write!/format!: literal template and argument provenance (only in fmt mode)"""
    nm = fn.get("name") or short(d)
    if "rt::Argument" in d and nm.startswith("new_"):
        return [(st, mk("call", "fmt:" + nm[4:], (e.snap(st, args[0]),)))]
    if "fmt::Arguments" in d:
        if nm == "new" and len(args) == 2:
            t = e.snap(st, args[0])
            tx = mk("k", "str", template(str(t.a[1]))) if t.k == "k" and t.a[0] == "raw" else t
            a = e.snap(st, args[1])
            vs = tuple(v for _, v in a.a[2]) if a.k == "agg" else (a,)
            return [(st, mk("call", "fmt", (tx,) + vs))]
        if nm.startswith(("from_str", "new_const")):
            return [(st, mk("call", "fmt", (e.snap(st, args[0]),)))]
    if d.startswith("alloc::fmt::format"):
        return [(st, e.snap(st, args[0]))]
    if "Separable" in d:
        return [(st, mk("call", nm, (e.snap(st, args[0]),)))]
    if "Formatter" in d and nm in ("write_fmt", "write_str", "write_char", "pad"):
        a = e.snap(st, args[1])
        e.emit(st, "call", "fmt::write", (a,), (), span, site)
        return [(st, mk("call", "fmt_result", (), mk("uid", site, span)))]
    if "as core::fmt::" in d or d.startswith("core::fmt::") and nm == "fmt":
        return None
    return None
