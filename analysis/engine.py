"""Path- and value-sensitive dataflow analysis over the type-checked program (MIR).

The analysis abstractly interprets MIR bodies.  Values are *provenance terms* (hash-consed
expression trees over inputs, state fields, constants, external call results); conditions on the
path are *facts* about such terms; side effects are *events* with their argument terms, the facts
that hold there and the set of events that must have happened before on the path.  Callees of the
analysed crates are analysed in context (helpers are looked through); async bodies are entered at
the `.await` that drives them; closures are entered where library combinators would call them;
destructors (drop guards, scopeguard) run where MIR drops them and not after the value was moved.
Loops are cut at their head with every location assigned in the loop generalised, so one pass over
the body stands for every iteration.  Joins merge equal stores (facts are intersected).

Nothing is executed and no solver is involved: the only reasoning on facts is equality of terms.
"""
import sys
import re

sys.setrecursionlimit(20000)

# --------------------------------------------------------------------------------------- terms


class T:
    __slots__ = ("k", "a", "h", "__weakref__")

    def __hash__(self):
        return self.h

    def __repr__(self):
        return show(self)


_intern = {}
_ctr = [0]


def mk(k, *a):
    key = (k, a)
    t = _intern.get(key)
    if t is None:
        t = T()
        t.k = k
        t.a = a
        _ctr[0] += 1
        t.h = _ctr[0]
        _intern[key] = t
    return t


UNIT = mk("agg", "()", None, ())
MOVED = mk("moved")
UNDEF = mk("undef")


def kint(v):
    return mk("k", "int", v)


def kbool(b):
    return mk("k", "bool", b)


def kstr(s):
    return mk("k", "str", s)


TRUE, FALSE = kbool(True), kbool(False)


def agg(adt, variant, fields):
    return mk("agg", adt, variant, tuple(fields))


def some(t):
    return agg("core::option::Option", "Some", (("0", t),))


NONE = agg("core::option::Option", "None", ())


def ok(t):
    return agg("core::result::Result", "Ok", (("0", t),))


def err(t):
    return agg("core::result::Result", "Err", (("0", t),))


def tup(*ts):
    return agg("()", None, tuple((str(i), t) for i, t in enumerate(ts)))


def short(path):
    """last path segment, generics removed"""
    p = re.sub(r"<[^<>]*>", "", path)
    p = re.sub(r"<[^<>]*>", "", p)
    p = re.sub(r"<[^<>]*>", "", p)
    return p.rstrip(":").split("::")[-1]


def show(t, depth=0):
    if not isinstance(t, T):
        return str(t)
    if depth > 14:
        return "…"
    d = depth + 1
    k, a = t.k, t.a
    if k == "k":
        if a[0] == "str":
            return repr(a[1])
        return str(a[1]) if a[0] in ("int", "bool") else "%s:%s" % (a[0], str(a[1])[:70])
    if k == "g":
        return short(a[0])
    if k == "p":
        return "$" + str(a[0])
    if k == "fld":
        return "%s.%s" % (show(a[0], d), a[1])
    if k == "vf":
        if a[1] in ("Some", "Ok", "Ready") and a[2] == "0":
            return "%s?" % show(a[0], d)
        return "%s@%s.%s" % (show(a[0], d), a[1], a[2])
    if k == "agg":
        nm = short(a[0]) if a[0] != "()" else ""
        if a[1] and a[1] != nm:
            nm = a[1] if nm in ("Option", "Result") else nm + "::" + a[1]
        if not a[2]:
            return nm or "()"
        return nm + "{" + ", ".join(
            (("%s: " % n) if not str(n).isdigit() else "") + show(v, d) for n, v in a[2]) + "}"
    if k == "clo":
        return "<closure %s>" % "::".join(a[0].split("::")[-3:])
    if k == "ref":
        b, p = a
        return "&%s%s" % (b, "".join("." + str(x) for x in p))
    if k == "call":
        return "%s(%s)" % (short(a[0]) if not a[0].startswith("op:") else a[0][3:], ", ".join(show(x, d) for x in a[1]))
    if k == "await":
        return "await(%s)" % show(a[0], d)
    if k == "elem":
        return "each(%s)" % show(a[0], d)
    if k == "case":
        return "case{" + " | ".join(
            "[" + ",".join("%s=%s" % (show(x, d), y) for x, y in f) + "] " + show(v, d) for f, v in a[0]) + "}"
    if k == "upd":
        return "%s with {%s}" % (show(a[0], d), ", ".join("%s: %s" % (n, show(v, d)) for n, v in a[1]))
    if k == "mutd":
        return "%s~%s(%s)" % (show(a[0], d), short(a[1]), ", ".join(show(x, d) for x in a[2]))
    if k == "iter":
        return "iter(%s%s)" % (show(a[0], d), "".join("." + s[0] for s in a[1]))
    if k == "is":
        return "variant(%s)" % show(a[0], d)
    if k == "phi":
        return "phi#%s" % t.h
    if k == "coll":
        return "coll(%s)" % " | ".join(show(v, d) for _, v in a[1])
    if k == "uid":
        return "#%s" % t.h
    if k == "joinall":
        return "joinall(%s)" % show(a[0], d)
    if k == "fn":
        return "fn " + short(a[0])
    return "%s(%s)" % (k, ", ".join(show(x, d) if isinstance(x, T) else str(x) for x in a))


# ----------------------------------------------------------------------------------- the program


class Program:
    def __init__(self, facts, crates=("evm_minter", "evm_rpc_client")):
        self.bodies = {}
        self.adts = {}
        self.consts = {}
        self.impls = []
        self.failed = []
        self.files = set()
        for name, f in facts.items():
            if f["crate"] not in crates:
                continue
            for b in f["bodies"]:
                self.bodies[b["def"]] = b
                self.files.add(b["span"].rsplit(":", 1)[0])
            for a in f["adts"]:
                self.adts[a["path"]] = a
            for c in f["consts"]:
                self.consts[c["path"]] = c
            self.impls += f["impls"]
            self.failed += [x for x in f["failed"] if "{constant#" not in x["def"] and not
                            re.search(r"::(STRINGS|LEN)$", x["def"])]
        self.drop_impls = {}
        self.trait_impls = {}
        for d, b in self.bodies.items():
            if b.get("impl_trait"):
                self.trait_impls.setdefault((b["impl_trait"], b.get("item_name")), []).append(b)
            if b.get("impl_trait") == "core::ops::drop::Drop":
                self.drop_impls[_strip_gen(b["impl_self"])] = d
        self._prep = {}
        self.fnconsts = {}

    def crate_trait(self, t):
        return t.startswith(("evm_minter::", "evm_rpc_client::"))

    def prep(self, d):
        """CFG facts of a body: RPO order, loop heads, back edges."""
        r = self._prep.get(d)
        if r is None:
            r = self._prep[d] = _cfg(self.bodies[d])
        return r


def _strip_gen(p):
    prev = None
    while prev != p:
        prev = p
        p = re.sub(r"(::)?<[^<>]*>", "", p)
    return p


def _succ(te):
    t = te["t"]
    if t in ("goto", "drop", "assert", "yield"):
        return [te["to"]]
    if t == "call":
        return [] if te["to"] is None else [te["to"]]
    if t == "switch":
        return [c[1] for c in te["cases"]] + [te["else"]]
    return []


def _cfg(body):
    bl = body["blocks"]
    succ = [[] if b is None else [s for s in _succ(b["te"]) if bl[s] is not None] for b in bl]
    # iterative DFS
    order, state, back = [], {}, set()
    stack = [(0, iter(succ[0]))]
    state[0] = 1
    while stack:
        n, it = stack[-1]
        adv = False
        for s in it:
            if state.get(s, 0) == 0:
                state[s] = 1
                stack.append((s, iter(succ[s])))
                adv = True
                break
            if state[s] == 1:
                back.add((n, s))
        if not adv:
            state[n] = 2
            order.append(n)
            stack.pop()
    rpo = order[::-1]
    preds = {}
    for n in rpo:
        for s in succ[n]:
            preds.setdefault(s, []).append(n)
    loops = {}
    for (n, h) in back:
        nodes = loops.setdefault(h, {h})
        work = [n]
        while work:
            x = work.pop()
            if x not in nodes:
                nodes.add(x)
                work.extend(preds.get(x, []))
    info = {}
    for h, nodes in loops.items():
        # an `.await` polling loop: its back edge comes straight from the resume block of a yield
        resumes = {bl[n]["te"]["to"] for n in nodes if bl[n]["te"]["t"] == "yield"}
        backs = [n for (n, hh) in back if hh == h]
        aw = bool(resumes) and all(_only_goto_from(bl, resumes, n) for n in backs) and \
            any(_is_poll(bl[n]["te"]) for n in nodes) and len(nodes) < 25
        assigned, mutref, effects = set(), set(), False
        for n in nodes:
            for s in bl[n]["st"]:
                if "p" in s:
                    assigned.add((s["p"][0], len(s["p"]) > 1 and "*" in s["p"]))
                    r = s["r"]
                    if r.get("ref") and r.get("k") == "m" and "*" not in r["ref"]:
                        mutref.add(r["ref"][0])
            te = bl[n]["te"]
            if te["t"] == "call":
                assigned.add((te["dest"][0], "*" in te["dest"]))
                effects = True
        info[h] = {"nodes": nodes, "await": aw, "assigned": assigned, "mutref": mutref, "effects": effects}
    return {"rpo": rpo, "pos": {n: i for i, n in enumerate(rpo)}, "back": back, "loops": info, "succ": succ}


def _only_goto_from(bl, resumes, n):
    return n in resumes or (bl[n]["te"]["t"] == "goto" and any(True for r in resumes if n in _chain(bl, r)))


def _chain(bl, r):
    out, seen = [], set()
    while r not in seen:
        seen.add(r)
        out.append(r)
        te = bl[r]["te"]
        if te["t"] in ("goto", "drop"):
            r = te["to"]
        else:
            break
    return out


def _is_poll(te):
    return te["t"] == "call" and te["f"].get("k", {}).get("fn", {}).get("def") == "core::future::future::Future::poll"


# ---------------------------------------------------------------------------------------- state


class St:
    __slots__ = ("mem", "facts", "trace", "epoch")

    def __init__(self, mem=None, facts=None, trace=frozenset(), epoch=0):
        self.mem = mem if mem is not None else {}
        self.facts = facts if facts is not None else {}
        self.trace = trace
        self.epoch = epoch

    def copy(self):
        return St(dict(self.mem), dict(self.facts), self.trace, self.epoch)


class Event:
    __slots__ = ("kind", "name", "args", "places", "site", "span", "facts", "trace", "key", "alive", "stack", "extra", "result",
                 "epoch")

    def __repr__(self):
        return "<%s %s(%s) @%s>" % (self.kind, self.name, ", ".join(show(a) for a in self.args), self.span)


class Truncated(Exception):
    pass


TRANSPARENT = {
    "core::clone::Clone::clone", "core::clone::Clone::clone_from", "alloc::borrow::ToOwned::to_owned",
    "core::convert::AsRef::as_ref", "core::convert::AsMut::as_mut", "core::borrow::Borrow::borrow",
    "core::borrow::BorrowMut::borrow_mut",
    "core::cell::RefCell::<T>::borrow", "core::cell::RefCell::<T>::borrow_mut", "core::cell::RefCell::<T>::new",
    "core::cell::RefCell::<T>::into_inner", "core::cell::RefCell::<T>::get_mut",
    "core::ops::deref::Deref::deref", "core::ops::deref::DerefMut::deref_mut",
    "core::option::Option::<&T>::cloned", "core::option::Option::<&T>::copied",
    "core::option::Option::<&mut T>::cloned", "core::option::Option::<&mut T>::copied",
    "core::option::Option::<T>::as_ref", "core::result::Result::<T, E>::as_ref",
    "core::option::Option::<T>::as_deref", "core::result::Result::<&T, E>::cloned",
    "core::result::Result::<&T, E>::copied",
    "alloc::boxed::Box::<T>::new", "alloc::boxed::Box::<T>::pin", "alloc::rc::Rc::<T>::new",
    "alloc::sync::Arc::<T>::new", "core::pin::Pin::<Ptr>::new_unchecked", "core::pin::Pin::<Ptr>::new",
    "core::pin::Pin::<&'a mut T>::as_mut", "core::pin::Pin::<Ptr>::as_mut",
    "core::future::into_future::IntoFuture::into_future", "core::hint::must_use", "core::convert::identity",
    "alloc::vec::Vec::<T, A>::as_slice", "alloc::vec::Vec::<T, A>::as_mut_slice", "alloc::slice::<impl [T]>::to_vec",
    "alloc::string::String::as_str", "alloc::string::String::as_bytes", "core::str::<impl str>::as_bytes",
    "alloc::vec::Vec::<T, A>::into_boxed_slice", "alloc::slice::<impl [T]>::into_vec",
    "core::cmp::Reverse", "phantom_newtype::Id::<Entity, Repr>::new", "phantom_newtype::Id::<Entity, Repr>::get",
    "phantom_newtype::Id::<Entity, Repr>::get_ref", "ethnum::uint::U256::new",
    "core::mem::ManuallyDrop::<T>::new", "core::iter::traits::iterator::Iterator::by_ref",
    "core::mem::maybe_uninit::MaybeUninit::<T>::assume_init",
    "core::slice::<impl [T]>::as_ref", "core::array::<impl [T; N]>::as_slice",
    "core::array::<impl [T; N]>::each_ref",
}

ITER_SOURCES = {
    "core::iter::traits::collect::IntoIterator::into_iter", "core::slice::<impl [T]>::iter",
    "core::slice::<impl [T]>::iter_mut", "alloc::collections::vec_deque::VecDeque::<T, A>::iter",
    "alloc::collections::btree::set::BTreeSet::<T, A>::iter", "alloc::vec::Vec::<T, A>::drain",
    "core::option::Option::<T>::iter", "alloc::collections::vec_deque::VecDeque::<T, A>::drain",
    "alloc::collections::btree::map::BTreeMap::<K, V, A>::iter",
    "alloc::collections::btree::map::BTreeMap::<K, V, A>::iter_mut",
    "std::collections::hash::map::HashMap::<K, V, S, A>::iter", "std::collections::hash::set::HashSet::<T, S, A>::iter",
    "std::collections::hash::map::HashMap::<K, V, S>::iter", "std::collections::hash::set::HashSet::<T, S>::iter",
}

IMPURE = {"ic_cdk::api::time", "core::future::get_context", "ic_cdk::api::instruction_counter",
          "ic_canister_log::now", "ic_cdk::api::canister_balance128", "ic_cdk::api::canister_balance"}

#: calls whose effects are irrelevant to every property: formatting, logging, counters
NOISE = re.compile(
    r"^(core::fmt::|alloc::fmt::|std::io::|ic_canister_log::|<.*as core::fmt::|thousands::)|::fmt$")

PANICS = re.compile(r"^(core::panicking::|std::rt::begin_panic|core::option::(expect|unwrap)_failed|ic_cdk::api::trap$|"
                    r"std::process::|std::panicking::|core::result::unwrap_failed|ic_cdk::trap$)")

CMP = {"core::cmp::PartialEq::eq": "eq", "core::cmp::PartialEq::ne": "ne", "core::cmp::PartialOrd::lt": "lt",
       "core::cmp::PartialOrd::le": "le", "core::cmp::PartialOrd::gt": "gt", "core::cmp::PartialOrd::ge": "ge"}


class Config:
    def __init__(self, **kw):
        self.opaque = set()          # def paths never entered
        self.opaque_re = None
        self.max_disjuncts = 48
        self.max_depth = 60
        self.budget = 4_000_000      # statements
        self.enter_spawn = False
        self.prim_types = ("evm_minter::checked_amount::CheckedAmountOf", "evm_minter::map::MultiKeyMap",
                           "evm_minter::map::DedupMultiKeyMap")
        self.join_nonempty = False   # joined futures: only the case of at least one
        self.record_pure = False     # also record pure opaque calls as events
        self.watch = None            # regex of local callee names to record as events when called
        self.collapse = True
        self.fmt = False             # model formatting (otherwise message text is dropped)
        self.logs = False            # keep calls of the log buffer library
        self.exact = False           # keep every path apart (small pure functions)
        self.__dict__.update(kw)


class Engine:
    def __init__(self, prog, cfg=None):
        self.p = prog
        self.cfg = cfg or Config()
        self.events = []
        self.fids = {}
        self.fmeta = {}
        self.genv = {}
        self.steps = 0
        self.truncated = []
        self.blind = False      # an array was filled through references to its elements
        self.stack = []
        self.entered = set()
        self.backfacts = {}
        self.phi_in = {}
        self.arrlen = {}        # byte arrays seen as slices: their length
        self.loopphis = {}
        self.epoch_src = {}
        self.backs = []
        self.round = ()                 # iterations of the literal loops being unrolled
        self.opaque_local = {}
        self.unmodelled = {}
        self._evkeys = {}
        self.deferred = []
        self.mute = 0

    # ---------------------------------------------------------------- frames / sites
    def fid(self, parent, site, d):
        key = (parent, site, d)
        f = self.fids.get(key)
        if f is None:
            f = self.fids[key] = len(self.fids) + 1
            self.fmeta[f] = key
        return f

    def uid(self, site):
        if self.round:
            site = (tuple(site) if isinstance(site, tuple) else (site,)) + (("round",) + self.round,)
        return mk("uid", *site) if isinstance(site, tuple) else mk("uid", site)

    # ---------------------------------------------------------------- store
    def base_init(self, st, base):
        if base[0] == "G":
            return mk("g", base[1], st.epoch)
        if base[0] == "T":
            return base[1]
        return UNDEF

    def read(self, st, loc):
        base, path = loc
        t = st.mem.get(base)
        if t is None:
            t = self.base_init(st, base)
        for el in path:
            t = self.proj(st, t, el)
        return t

    def proj(self, st, t, el):
        """el: ('f',name) | ('vf',Variant,name) | ('i',term) | ('ci',n,from_end) | ('sub',..)"""
        t = self.resolve(st, t)
        k = t.k
        if k == "agg":
            if el[0] == "f":
                for n, v in t.a[2]:
                    if n == el[1]:
                        return v
                if t.a[0] == "scopeguard::ScopeGuard":
                    return UNDEF
                return mk("fld", t, el[1])
            if el[0] == "vf":
                if t.a[1] is not None and t.a[1] != el[1]:
                    return UNDEF
                for n, v in t.a[2]:
                    if n == el[2]:
                        return v
                return UNDEF
            if el[0] == "ci" and t.a[0] == "[]":
                n = el[1]
                if el[2]:
                    n = len(t.a[2]) - n
                if 0 <= n < len(t.a[2]):
                    return t.a[2][n][1]
                return UNDEF
            if el[0] == "i" and t.a[0] == "[]" and el[1].k == "k":
                n = el[1].a[1]
                if 0 <= n < len(t.a[2]):
                    return t.a[2][n][1]
                return UNDEF
        elif k == "upd":
            for n, v in t.a[1]:
                if n == el:
                    return v
            if not (el[0] in ("sl", "i", "ci") and (el[0] == "sl" or any(n[0] == "sl" for n, _ in t.a[1]))):
                return self.proj(st, t.a[0], el)
        elif k == "case":
            arms = []
            for f, v in t.a[0]:
                pv = self.proj(st, v, el)
                if pv is not UNDEF:
                    arms.append((f, pv))
            return self.mkcase(arms)
        elif k == "clo" and el[0] == "f":
            i = int(el[2]) if len(el) > 2 else None
            if i is not None and i < len(t.a[1]):
                return t.a[1][i][1]
        elif k == "k" and t.a[0] == "raw" and el[0] in ("i", "ci"):
            n = el[1].a[1] if el[0] == "i" and el[1].k == "k" else (el[1] if el[0] == "ci" and not el[2] else None)
            b = bytes.fromhex(t.a[1])
            if isinstance(n, int) and n < len(b):
                return kint(b[n])
        elif k in ("moved", "undef"):
            return t
        elif k == "ref":
            # projecting through a reference held where a transparent value is expected
            return self.proj(st, self.read(st, (t.a[0], t.a[1])), el)
        if el[0] == "f":
            return mk("fld", t, el[1])
        if el[0] == "vf":
            return self.payload(t, el[1], el[2])
        if el[0] == "i":
            return mk("vf", mk("call", "op:get", (t, self.snap(st, el[1]))), "Some", "0")
        if el[0] == "ci":
            return mk("vf", mk("call", "op:get", (t, kint(-el[1] if el[2] else el[1]))), "Some", "0")
        if el[0] == "sl":
            return mk("call", "op:slice", (t, el[1]))
        return mk("call", "op:" + str(el[0]), (t,) + tuple(kint(x) for x in el[1:] if isinstance(x, int)))

    def payload(self, t, variant, name):
        if t.k == "call":
            f = t.a[0]
            if variant in ("Some", "Ok") and name == "0":
                if f in ("op:checked_sub", "op:checked_add", "op:checked_mul", "op:checked_div_ceil",
                         "op:checked_div_floor", "op:checked_div"):
                    return mk("call", "op:" + f[11:], t.a[1])
                if f == "op:checked_inc":
                    return mk("call", "op:add", (t.a[1][0], kint(1)))
                if f == "op:checked_dec":
                    return mk("call", "op:sub", (t.a[1][0], kint(1)))
                if f == "op:try_into":
                    return t.a[1][0]
        return mk("vf", t, variant, name)

    def write(self, st, loc, v):
        base, path = loc
        if not path:
            st.mem[base] = v
            return
        cur = st.mem.get(base)
        if cur is None:
            cur = self.base_init(st, base)
        st.mem[base] = self.setpath(st, cur, path, v)

    def setpath(self, st, t, path, v):
        if not path:
            return v
        el = path[0]
        sub = self.setpath(st, self.proj(st, t, el), path[1:], v)
        t = self.resolve(st, t)
        if t.k == "agg":
            if el[0] == "f":
                fs = list(t.a[2])
                for i, (n, _) in enumerate(fs):
                    if n == el[1]:
                        fs[i] = (n, sub)
                        return agg(t.a[0], t.a[1], fs)
                if t.a[0] in ("()",):
                    return agg(t.a[0], t.a[1], fs + [(el[1], sub)])
            if el[0] == "vf" and (t.a[1] == el[1]):
                fs = list(t.a[2])
                for i, (n, _) in enumerate(fs):
                    if n == el[2]:
                        fs[i] = (n, sub)
                        return agg(t.a[0], t.a[1], fs)
        if t.k == "clo" and el[0] == "f" and len(el) > 2:
            i = int(el[2])
            caps = list(t.a[1])
            if i < len(caps):
                caps[i] = (caps[i][0], sub)
                return mk("clo", t.a[0], tuple(caps), *t.a[2:])
        if t.k == "upd":
            ov = [(n, x) for n, x in t.a[1] if n != el]
            ov.append((el, sub))
            ov.sort(key=lambda z: str(z[0]))
            return mk("upd", t.a[0], tuple(ov))
        if t.k in ("undef", "moved"):
            if el[0] == "f":
                return agg("()" if str(el[1]).isdigit() else "?", None, ((el[1], sub),))
            return mk("upd", t, ((el, sub),))
        return mk("upd", t, ((el, sub),))

    # ---------------------------------------------------------------- conditional terms
    def mkcase(self, arms):
        if not arms:
            return UNDEF
        first = arms[0][1]
        if all(v is first for _, v in arms):
            return first
        flat = []
        for f, v in arms:
            if v.k == "case":
                for f2, v2 in v.a[0]:
                    d = dict(f)
                    bad = False
                    for a, x in f2:
                        if a in d and not _compat(d[a], x):
                            bad = True
                        d[a] = x
                    if not bad:
                        flat.append((tuple(sorted(d.items(), key=lambda z: z[0].h)), v2))
            else:
                flat.append((f, v))
        if len(flat) > 40:
            return mk("phi", "case", tuple(flat[:40]))
        return mk("case", tuple(flat))

    def resolve(self, st, t):
        """pick the arm of a conditional term if the facts determine it"""
        n = 0
        while t.k == "case" and n < 20:
            arms = [(f, v) for f, v in t.a[0] if self.consistent(st, f)]
            if len(arms) == 1:
                for a, x in arms[0][0]:
                    if a not in st.facts:
                        st.facts[a] = x
                t = arms[0][1]
            elif len(arms) < len(t.a[0]):
                t = self.mkcase(arms) if arms else UNDEF
                if t.k == "case":
                    break
            else:
                break
            n += 1
        return t

    def consistent(self, st, f):
        for a, x in f:
            y = st.facts.get(a)
            if y is not None and not _compat(y, x):
                return False
            if a.k == "is" and y is None:
                vv = self.variant_known(st, a.a[0])
                if vv is not None and not _compat(vv, x):
                    return False
            elif y is None:
                b = self.bool_known(st, a)
                if b is not None and b != x:
                    return False
        return True

    # ---------------------------------------------------------------- facts
    def variant_known(self, st, t):
        t = self.resolve(st, t)
        if t.k == "agg":
            return t.a[1]
        if t.k == "upd":
            return self.variant_known(st, t.a[0])
        if t.k == "ref":
            return self.variant_known(st, self.read(st, (t.a[0], t.a[1])))
        key, mapf = self.norm_variant(t)
        if mapf is not None:
            b = self.bool_known(st, key)
            if b is None:
                return None
            return mapf[b]
        f = st.facts.get(mk("is", t))
        return f

    def norm_variant(self, t):
        """variants whose choice is a comparison: checked_sub(a,b) is None  <=>  a < b"""
        if t.k == "call" and t.a[0] == "op:checked_sub":
            return self.cmp_term("lt", t.a[1][0], t.a[1][1]), {True: "None", False: "Some"}
        if t.k == "call" and t.a[0] == "op:setget":
            return mk("call", "op:contains", t.a[1]), {True: "Some", False: "None"}
        return t, None

    def assume_variant(self, st, t, v):
        """-> list of states in which t has variant v (str) or not any of v (frozenset)"""
        t = self.resolve(st, t)
        if t.k == "case":
            out = []
            for f, val in t.a[0]:
                for s2 in self.assume_all(st, f):
                    out += self.assume_variant(s2, val, v)
            return out
        if t.k == "upd":
            return self.assume_variant(st, t.a[0], v)
        if t.k == "ref":
            return self.assume_variant(st, self.read(st, (t.a[0], t.a[1])), v)
        if t.k == "agg":
            okv = (t.a[1] == v) if isinstance(v, str) else (t.a[1] not in v)
            return [st] if okv else []
        if t.k in ("undef", "moved"):
            return []
        key, mapf = self.norm_variant(t)
        if mapf is not None:
            out = []
            for b in (True, False):
                okv = (mapf[b] == v) if isinstance(v, str) else (mapf[b] not in v)
                if okv:
                    out += self.assume_bool(st.copy(), key, b)
            return out
        key = mk("is", t)
        cur = st.facts.get(key)
        if cur is not None:
            if isinstance(cur, str):
                okv = (cur == v) if isinstance(v, str) else (cur not in v)
                return [st] if okv else []
            if isinstance(v, str):
                if v in cur:
                    return []
            else:
                v = v | cur
        s2 = st.copy()
        s2.facts[key] = v
        return [s2]

    def assume_all(self, st, fs):
        sts = [st]
        for a, x in fs:
            nxt = []
            for s in sts:
                if a.k == "is":
                    nxt += self.assume_variant(s, a.a[0], x)
                else:
                    nxt += self.assume_bool(s, a, x)
            sts = nxt
        return sts

    def cmp_term(self, op, a, b):
        """normalise comparisons to eq / lt with possible negation"""
        if op == "ne":
            return self.neg(self.cmp_term("eq", a, b))
        if op == "gt":
            return self.cmp_term("lt", b, a)
        if op == "le":
            return self.neg(self.cmp_term("lt", b, a))
        if op == "ge":
            return self.neg(self.cmp_term("lt", a, b))
        if a.k == "k" and b.k == "k" and a.a[0] == b.a[0]:
            try:
                return kbool(a.a[1] == b.a[1] if op == "eq" else a.a[1] < b.a[1])
            except TypeError:
                pass
        if op == "eq":
            if a is b and a.k not in ("undef", "phi"):
                return TRUE
            if b.k == "agg" and a.k == "agg":
                if a.a[1] != b.a[1]:
                    return FALSE
                if a.a[0] == b.a[0] and len(a.a[2]) == len(b.a[2]):
                    pass
            for x, y in ((a, b), (b, a)):
                if y.k == "agg" and y.a[0] == "core::option::Option" and y.a[1] == "Some":
                    if x.k == "agg" and x.a[1] == "Some":
                        return self.cmp_term("eq", x.a[2][0][1], y.a[2][0][1])
                    if x.k in ("p", "fld", "vf", "call", "g"):
                        return mk("call", "op:and", (mk("isv", x, "Some"), self.cmp_term("eq", mk("vf", x, "Some", "0"), y.a[2][0][1])))
            if b.k == "agg" and b.a[1] is not None and not b.a[2] and b.a[0] != "()":
                return mk("isv", a, b.a[1])
            if a.k == "agg" and a.a[1] is not None and not a.a[2] and a.a[0] != "()":
                return mk("isv", b, a.a[1])
            if a.k == "k" and a.a[0] == "bool":
                return b if a.a[1] else self.neg(b)
            if b.k == "k" and b.a[0] == "bool":
                return a if b.a[1] else self.neg(a)
            # len(x) == 0
            for x, y in ((a, b), (b, a)):
                if y.k == "k" and y.a[1] == 0 and x.k == "call" and x.a[0] == "op:len":
                    return mk("call", "op:is_empty", x.a[1])
            if a.k != "k" and (b.k == "k" or a.h <= b.h):
                return mk("call", "op:eq", (a, b))
            return mk("call", "op:eq", (b, a))
        if op == "lt":
            if a is b:
                return FALSE
            if a.k == "k" and a.a[1] == 0 and b.k == "call" and b.a[0] == "op:len":
                return self.neg(mk("call", "op:is_empty", b.a[1]))
            if b.k == "k" and b.a[1] == 1 and a.k == "call" and a.a[0] == "op:len":
                return mk("call", "op:is_empty", a.a[1])
            if b.k == "k" and b.a[0] == "int" and b.a[1] == 0:
                return FALSE  # all compared quantities of this code base are unsigned
        return mk("call", "op:" + op, (a, b))

    def neg(self, t):
        if t.k == "k":
            return kbool(not t.a[1])
        if t.k == "not":
            return t.a[0]
        if t.k == "case":
            return self.mkcase([(f, self.neg(v)) for f, v in t.a[0]])
        return mk("not", t)

    def bool_known(self, st, t):
        t = self.resolve(st, t)
        if t.k == "k" and t.a[0] == "bool":
            return t.a[1]
        if t.k == "not":
            b = self.bool_known(st, t.a[0])
            return None if b is None else not b
        if t.k == "isv":
            v = self.variant_known(st, t.a[0])
            if v is None:
                return None
            if isinstance(v, str):
                return v == t.a[1]
            return False if t.a[1] in v else None
        if t.k == "call":
            if t.a[0] in ("op:and", "op:or"):
                x, y = (self.bool_known(st, z) for z in t.a[1])
                if t.a[0] == "op:and":
                    return False if (x is False or y is False) else (True if (x and y) else None)
                return True if (x or y) else (False if (x is False and y is False) else None)
            f = st.facts.get(t)
            if f is not None:
                return f
            if t.a[0] == "op:eq" and t.a[1][1].k == "k":
                # x == c known for another constant
                pass
            if t.a[0] == "op:lt":
                if st.facts.get(mk("call", "op:lt", (t.a[1][1], t.a[1][0]))):
                    return False
            return None
        return st.facts.get(t)

    def assume_bool(self, st, t, b):
        t = self.resolve(st, t)
        if t.k == "k":
            return [st] if bool(t.a[1]) == b else []
        if t.k == "not":
            return self.assume_bool(st, t.a[0], not b)
        if t.k == "case":
            out = []
            for f, val in t.a[0]:
                for s2 in self.assume_all(st, f):
                    out += self.assume_bool(s2, val, b)
            return out
        if t.k == "isv":
            return self.assume_variant(st, t.a[0], t.a[1] if b else frozenset([t.a[1]]))
        if t.k == "call" and t.a[0] in ("op:and", "op:or"):
            x, y = t.a[1]
            if (t.a[0] == "op:and") == b:
                out = []
                for s in self.assume_bool(st, x, b):
                    out += self.assume_bool(s, y, b)
                return out
            out = self.assume_bool(st.copy(), x, b)
            for s in self.assume_bool(st.copy(), x, not b):
                out += self.assume_bool(s, y, b)
            return out
        if t.k in ("undef", "moved"):
            return [st]
        k = self.bool_known(st, t)
        if k is not None:
            return [st] if k == b else []
        s2 = st.copy()
        s2.facts[t] = b
        return [s2]

    # ---------------------------------------------------------------- places and operands
    def loc_of(self, st, fid, body, place):
        """-> location; dereferences follow references"""
        loc = (("L", fid, place[0]), ())
        pend = None
        for el in place[1:]:
            if el == "*":
                v = self.read(st, loc)
                loc = self.deref(st, v)
            elif isinstance(el, dict):
                if "v" in el:
                    pend = el["n"]
                    continue
                if "f" in el:
                    name = el["n"] if el["n"] is not None else str(el["f"])
                    if pend is not None:
                        e = ("vf", pend, name)
                        pend = None
                    else:
                        base_v = self.read(st, loc)
                        if base_v.k == "clo":
                            e = ("f", name, el["f"])
                        else:
                            e = ("f", name)
                    loc = (loc[0], loc[1] + (e,))
                elif "idx" in el:
                    iv = self.read(st, (("L", fid, el["idx"]), ()))
                    loc = (loc[0], loc[1] + (("i", iv),))
                elif "cidx" in el:
                    loc = (loc[0], loc[1] + (("ci", el["cidx"], el["from_end"]),))
                elif "sub" in el:
                    loc = (loc[0], loc[1] + (("sub", el["sub"][0], el["sub"][1], int(el["from_end"])),))
        return loc

    def deref(self, st, v):
        v = self.resolve(st, v)
        if v.k == "ref":
            return (v.a[0], v.a[1])
        return (("T", v), ())

    def operand(self, st, fid, body, o):
        if "c" in o:
            return self.readv(st, self.loc_of(st, fid, body, o["c"]))
        if "m" in o:
            loc = self.loc_of(st, fid, body, o["m"])
            v = self.readv(st, loc)
            if loc[0][0] == "L":
                if not loc[1]:
                    st.mem.pop(loc[0], None)
                elif v.k not in ("k",) and not (v.k == "ref"):
                    self.write(st, loc, MOVED)
            return v
        return self.constant(o["k"])

    def readv(self, st, loc):
        return self.resolve(st, self.read(st, loc))

    def constant(self, k):
        if "fn" in k:
            t = mk("fn", k["fn"]["def"], tuple(k["fn"].get("args", [])))
            self.p.fnconsts[t] = k["fn"]
            return t
        ty = k.get("ty", "")
        if ty == "()":
            return UNIT
        if "LocalKey<" in ty and "path" in k:
            return mk("g", k["path"], 0)
        if "val" in k:
            if k.get("int"):
                m = re.match(r"evm_minter::|core::", ty)
                return kint(int(k["val"])) if not (m and "pretty" in k and k["pretty"].count("::") and
                                                   ty in self.p.adts) else self.pretty_const(k, ty)
            if isinstance(k["val"], bool):
                return kbool(k["val"])
            return mk("k", "str", k["val"])
        if "str" in k:
            return kstr(k["str"])
        if "bytes" in k:
            return mk("k", "raw", k["bytes"])
        if "raw" in k or "rawref" in k:
            raw = k.get("raw") or k.get("rawref")
            if "CheckedAmountOf" in ty or ty == "ethnum::uint::U256":
                return kint(int.from_bytes(bytes.fromhex(raw)[:32], "little"))
            if ty in self.p.adts or (ty.startswith("&") and ty[1:] in self.p.adts):
                ad = self.p.adts.get(ty.lstrip("&")) or {}
                vs = ad.get("variants") or []
                if ad.get("kind") == "Struct" and len(vs) == 1 and len(vs[0]["fields"]) == 1 and \
                        vs[0]["fields"][0]["ty"] == "[u8; %d]" % (len(raw) // 2):
                    return agg(ty.lstrip("&"), None, ((vs[0]["fields"][0]["n"], mk("k", "raw", raw)),))
                return mk("k", "adt:" + ty, raw)
            if "core::time::Duration" in ty:
                return mk("k", "duration", raw)
            if ty.startswith("alloc::vec::Vec<") and len(raw) == 48 and raw.startswith("0" * 16) and raw.endswith("0" * 16):
                return agg("[]", None, ())
            return mk("k", "raw", raw)
        if "pretty" in k:
            return self.pretty_const(k, ty)
        if "path" in k:
            b = self.p.bodies.get(k["path"])
            return mk("kpath", k["path"])
        return mk("k", "zst", ty)

    def pretty_const(self, k, ty):
        s = k["pretty"]
        a = self.p.adts.get(ty)
        if a and re.match(r"^[\w:]+$", s):
            v = s.split("::")[-1]
            for va in a["variants"]:
                if va["n"] == v and not va["fields"]:
                    return agg(ty, v, ())
        if ty.startswith("core::option::Option") and s.endswith("::None"):
            return NONE
        if re.match(r"^[\w:]*(Option(::<.*>)?)::None$", s):
            return NONE
        return mk("k", "pretty", s)

    # ---------------------------------------------------------------- snapshots (memory-free terms)
    def snap(self, st, t, depth=0):
        t = self.resolve(st, t)
        k = t.k
        if k == "ref":
            if depth > 12:
                return mk("phi", "deep")
            return self.snap(st, self.read(st, (t.a[0], t.a[1])), depth + 1)
        if k == "agg":
            if not t.a[2]:
                return t
            fs = tuple((n, self.snap(st, v, depth + 1)) for n, v in t.a[2])
            return mk("agg", t.a[0], t.a[1], fs)
        if k == "clo":
            return mk("clo", t.a[0], tuple((n, self.snap(st, v, depth + 1)) for n, v in t.a[1]), *t.a[2:])
        if k == "case":
            return self.mkcase([(f, self.snap(st, v, depth + 1)) for f, v in t.a[0]])
        if k == "upd":
            return mk("upd", self.snap(st, t.a[0], depth + 1),
                      tuple((n, self.snap(st, v, depth + 1)) for n, v in t.a[1]))
        return t

    def place_name(self, st, t):
        """a &/&mut argument -> the term naming the place it points to (state path)"""
        if t.k != "ref":
            return None
        base, path = t.a
        if base[0] == "G":
            b = mk("g", base[1], 0)
        elif base[0] == "T":
            b = base[1]
        else:
            b = mk("loc", base[1], base[2])
        for el in path:
            if el[0] == "f":
                b = mk("fld", b, el[1])
            elif el[0] == "vf":
                b = mk("vf", b, el[1], el[2])
            else:
                b = mk("call", "op:index", (b,))
        return b

    # ---------------------------------------------------------------- events
    def emit(self, st, kind, name, args, places, span, site, extra=None):
        key = (kind, name, tuple(args), site) + self.round
        kid = self._evkeys.get(key)
        if kid is None:
            kid = self._evkeys[key] = len(self._evkeys) + 1
        e = Event()
        e.kind, e.name, e.args, e.places, e.span, e.site = kind, name, tuple(args), places, span, site
        e.facts = dict(st.facts)
        e.trace = st.trace
        e.key = kid
        e.alive = self.alive(st) if kind in ("suspend", "call") else ()
        e.stack = tuple(self.stack)
        e.extra = extra
        e.result = None
        e.epoch = st.epoch
        if not self.mute:
            self.events.append(e)
        st.trace = st.trace | {kid}
        return e

    def alive(self, st):
        out = []
        for base, v in st.mem.items():
            if base[0] == "L":
                self.find_drops(st, v, out)
        return tuple(out)

    def find_drops(self, st, v, out, depth=0):
        if depth > 6:
            return
        if v.k == "agg":
            if v.a[0] == "scopeguard::ScopeGuard" or v.a[0] in self.p.drop_impls:
                out.append(v)
            for _, x in v.a[2]:
                if x.k in ("agg", "upd", "case"):
                    self.find_drops(st, x, out, depth + 1)
        elif v.k == "upd":
            for _, x in v.a[1]:
                self.find_drops(st, x, out, depth + 1)
        elif v.k == "case":
            r = self.resolve(st, v)
            if r is not v:
                self.find_drops(st, r, out, depth + 1)

    # ---------------------------------------------------------------- running bodies
    def run(self, d, args=None, st=None, argnames=None):
        """analyse body d as a root with symbolic inputs; -> [(state, value)]"""
        body = self.p.bodies[d]
        st = st or St()
        vals = []
        for i in range(body["argc"]):
            nm = body["locals"][i + 1]["n"] or ("arg%d" % (i + 1))
            if argnames and i < len(argnames):
                nm = argnames[i]
            ty = body["locals"][i + 1]["ty"]
            if args is not None and i < len(args) and args[i] is not None:
                vals.append(args[i])
            elif body["kind"] == "coroutine" and i == 0:
                vals.append(mk("clo", d, tuple((n, mk("p", n)) for n in self.capnames(body))))
            elif body["kind"] == "closure" and i == 0:
                vals.append(mk("clo", d, tuple((n, mk("p", n)) for n in self.capnames(body))))
            elif ty.startswith("&"):
                vals.append(mk("ref", ("T", mk("p", nm)), ()))
            else:
                vals.append(mk("p", nm))
        f = self.fid(0, 0, d)
        return self.exec_body(d, f, st, vals)

    def capnames(self, body):
        n = {}
        for b in body["blocks"]:
            if not b:
                continue
            for s in b["st"]:
                for pl in _places(s):
                    if pl[0] == 1:
                        for el in pl[1:]:
                            if isinstance(el, dict) and "f" in el:
                                n[el["f"]] = el["n"] or str(el["f"])
                                break
        m = max(n) + 1 if n else 0
        return [n.get(i, str(i)) for i in range(m)]

    def run_async(self, d, args=None, argnames=None):
        """root analysis of an async fn: call it, then drive the coroutine"""
        out = []
        for st, v in self.run(d, args, None, argnames):
            out += self.drive(st, v, ("root", d), None)
        return out

    def drive(self, st, fut, site, span):
        """poll a future value to completion -> [(st, value)]"""
        fut = self.resolve(st, fut)
        if fut.k == "ref":
            fut = self.readv(st, (fut.a[0], fut.a[1]))
        if fut.k == "case":
            out = []
            for f, v in fut.a[0]:
                for s2 in self.assume_all(st.copy(), f):
                    out += self.drive(s2, v, site, span)
            return out
        if fut.k == "clo" and fut.a[0] in self.p.bodies and self.depth_ok(fut.a[0]):
            f = self.fid(site[0] if isinstance(site, tuple) else 0, site, fut.a[0])
            return self.exec_body(fut.a[0], f, st, [fut, mk("phi", "cx")])
        fs = self.snap(st, fut)
        if fut.k == "joinall":
            return self.drive_joinall(st, fut, site, span)
        r = mk("await", fs, self.uid(("aw",) + tuple(site)))
        e = self.emit(st, "suspend", fs.a[0] if fs.k == "call" else fs.k, fs.a[1] if fs.k == "call" else (fs,), (), span, site)
        e.result = r
        self.bump(st, site, e.key)
        return [(st, r)]

    def bump(self, st, site, key=None):
        st.epoch = mk("ep", self.uid(("b",) + tuple(site)))
        self.epoch_src.setdefault(st.epoch, set()).add(key)
        for b in [b for b in st.mem if b[0] == "G"]:
            del st.mem[b]

    def depth_ok(self, d):
        return len(self.stack) < self.cfg.max_depth and self.stack.count(d) < 2

    def exec_body(self, d, fid, st, args):
        body = self.p.bodies[d]
        if not self.depth_ok(d):
            return [(st, mk("call", d, tuple(self.snap(st, a) for a in args)))]
        self.entered.add(d)
        self.stack.append(d)
        try:
            return self._exec(d, body, fid, st, args)
        finally:
            self.stack.pop()

    def _exec(self, d, body, fid, st, args):
        cfg = self.p.prep(d)
        bl = body["blocks"]
        st = st.copy()
        for i, v in enumerate(args):
            st.mem[("L", fid, i + 1)] = v
        pending = {0: [st]}
        rets = []
        back = cfg["back"]
        for bb in cfg["rpo"]:
            sts = pending.pop(bb, None)
            if not sts:
                continue
            sts = self.merge(sts, (fid, bb))
            if bb in cfg["loops"]:
                li = cfg["loops"][bb]
                if not li["await"] and self.cfg.exact and self.literal(sts, fid, bb, li, bl):
                    self.unroll(d, body, fid, bb, sts, cfg, rets, pending)
                    continue
                if not li["await"]:
                    for s in sts:
                        self.havoc(s, fid, bb, li, body)
                    sts = self.merge(sts, (fid, bb))
            for s in sts:
                self.steps += 1 + len(bl[bb]["st"])
                if self.steps > self.cfg.budget:
                    raise Truncated("statement budget exhausted in %s" % d)
                for tgt, s2 in self.exec_block(d, body, fid, bb, s):
                    if tgt == "ret":
                        rets.append(s2)
                    elif (bb, tgt) in back:
                        self.on_back(s2, fid, tgt)
                        if not cfg["loops"][tgt]["await"]:
                            self.backs.append((d, fid, tgt, s2))
                    else:
                        if bl[tgt] is None:
                            continue
                        pending.setdefault(tgt, []).append(s2)
        out = []
        for s in rets:
            v = s.mem.get(("L", fid, 0), UNIT if body["locals"][0]["ty"] == "()" else UNDEF)
            v = self.resolve(s, v)
            for b in [b for b in s.mem if b[0] == "L" and b[1] == fid]:
                del s.mem[b]
            out.append((s, v))
        return out

    def literal(self, sts, fid, h, li, bl):
        """a loop over a list written out in the code: the local holding its iterator"""
        te = bl[h]["te"]
        while te["t"] == "goto" and te["to"] in li["nodes"] and te["to"] != h:
            te = bl[te["to"]]["te"]
        if te["t"] != "call" or not (((te["f"].get("k") or {}).get("fn") or {}).get("def") or "").endswith("Iterator::next"):
            return False
        ls = [l for l in li["mutref"] if all(("L", fid, l) in s.mem and s.mem[("L", fid, l)].k == "iter" for s in sts)]
        if len(ls) != 1:
            return False
        its = [s.mem[("L", fid, ls[0])] for s in sts]
        return all(i.a[0].k == "agg" and i.a[0].a[0] == "[]" and 0 < len(i.a[0].a[2]) <= 8 and
                   all(g[0] in ("cloned", "copied", "map") for g in i.a[1]) for i in its)

    def unroll(self, d, body, fid, h, sts, cfg, rets, pending):
        bl = body["blocks"]
        nodes = cfg["loops"][h]["nodes"]
        old = self.round
        n = 0
        while sts and n < 12:
            self.round = old + ((fid, h, n),)
            n += 1
            here, nxt = {h: sts}, []
            for bb in cfg["rpo"]:
                if bb not in nodes:
                    continue
                cur = here.pop(bb, None)
                if not cur:
                    continue
                cur = self.merge(cur, (fid, bb))
                li = cfg["loops"].get(bb)
                if bb != h and li and not li["await"]:
                    for s in cur:
                        self.havoc(s, fid, bb, li, body)
                    cur = self.merge(cur, (fid, bb))
                for s in cur:
                    self.steps += 1 + len(bl[bb]["st"])
                    if self.steps > self.cfg.budget:
                        raise Truncated("statement budget exhausted in %s" % d)
                    for tgt, s2 in self.exec_block(d, body, fid, bb, s):
                        if tgt == "ret":
                            rets.append(s2)
                        elif (bb, tgt) in cfg["back"]:
                            if tgt == h:
                                nxt.append(s2)
                                continue
                            self.on_back(s2, fid, tgt)
                            if not cfg["loops"][tgt]["await"]:
                                self.backs.append((d, fid, tgt, s2))
                        elif bl[tgt] is None:
                            continue
                        elif tgt in nodes:
                            here.setdefault(tgt, []).append(s2)
                        else:
                            pending.setdefault(tgt, []).append(s2)
            sts = nxt
        self.round = old
        if sts:
            raise Truncated("unrolled loop in %s" % d)

    def on_back(self, s, fid, head):
        for (f, h), ph in list(self.loopphis.items()):
            if f == fid and h == head:
                for l, p in ph.items():
                    v = s.mem.get(("L", fid, l))
                    if v is not None and v is not p:
                        self.phi_in.setdefault(p, set()).add(v)
        for b, v in s.mem.items():
            if b[0] == "T":
                p = mk("phi", fid, head, b)
                if p in self.phi_in and v is not p:
                    self.phi_in[p].add(v)

    def drive_joinall(self, st, fut, site, span):
        import models
        it = fut.a[0]
        outs = []
        for s, f in models.iter_elems(self, st.copy(), it, tuple(site) + ("ja",), span):
            outs += self.drive(s, f, tuple(site) + ("jad",), span)
        arms = tuple((models.delta(st, s), self.snap(s, v)) for s, v in outs)
        c = mk("coll", it.a[0], arms)
        res = []
        s0 = st.copy()
        self.bump(s0, tuple(site) + ("ja0",))
        if not (self.cfg.join_nonempty and outs):
            res.append((s0, c))
        # effects of the joined futures may have happened
        seen = set()
        for s, _ in outs:
            if s.trace not in seen:
                seen.add(s.trace)
                s2 = s0.copy()
                s2.trace = s.trace
                res.append((s2, c))
        return res[:6]

    def havoc(self, s, fid, bb, li, body):
        for (l, der) in li["assigned"]:
            b = ("L", fid, l)
            if not der and b in s.mem:
                v = s.mem[b]
                ph = mk("phi", fid, bb, l)
                self.phi_in.setdefault(ph, set()).add(v)
                self.loopphis.setdefault((fid, bb), {})[l] = ph
                s.mem[b] = ph
        for l in li["mutref"]:
            b = ("L", fid, l)
            if b in s.mem:
                v = s.mem[b]
                if v.k in ("iter", "clo", "ref") or _is_iterty(body["locals"][l]["ty"]):
                    continue
                if v.k == "phi":
                    self.loopphis.setdefault((fid, bb), {}).setdefault(l, v)
                    continue
                ph = mk("phi", fid, bb, l)
                self.phi_in.setdefault(ph, set()).add(v)
                self.loopphis.setdefault((fid, bb), {})[l] = ph
                s.mem[b] = ph
        if li["effects"]:
            # state may have been changed by earlier iterations
            wrote = [b for b in s.mem if b[0] == "G" or (b[0] == "T")]
            if s.facts or wrote:
                old = s.epoch
                s.epoch = mk("ep", self.uid(("loop", fid, bb)))
                for b in wrote:
                    if b[0] == "G":
                        del s.mem[b]
                    else:
                        ph = mk("phi", fid, bb, b)
                        if s.mem[b] is not ph:
                            self.phi_in.setdefault(ph, set()).add(s.mem[b])
                        s.mem[b] = ph

    # ---------------------------------------------------------------- joins
    def merge(self, sts, where):
        if len(sts) == 1:
            return sts
        groups = {}
        order = []
        for s in sts:
            key = (frozenset(s.mem.items()), s.trace, s.epoch)
            if self.cfg.exact:
                key += (frozenset(s.facts.items()),)
            if key in groups:
                g = groups[key]
                g.facts = {a: x for a, x in ((a, _join_fact(x, s.facts.get(a))) for a, x in g.facts.items())
                           if x is not None}
            else:
                groups[key] = s
                order.append(key)
        out = [groups[k] for k in order]
        if len(out) > self.cfg.max_disjuncts:
            out = self.widen(out, where)
        return out

    def widen(self, sts, where):
        """too many disjuncts: join stores, first among equal histories, then across"""
        by = {}
        for s in sts:
            by.setdefault((s.trace, s.epoch), []).append(s)
        out = [self.join(g, where) for g in by.values()]
        if len(out) > self.cfg.max_disjuncts:
            by = {}
            for s in out:
                by.setdefault(s.epoch, []).append(s)
            out = [self.join(g, where) for g in by.values()]
            if len(out) > self.cfg.max_disjuncts:
                out = [self.join(out, where)]
        return out

    def join(self, g, where):
        if len(g) == 1:
            return g[0]
        r = g[0].copy()
        for s in g[1:]:
            for b in set(r.mem) | set(s.mem):
                x, y = r.mem.get(b), s.mem.get(b)
                if x is None or y is None:
                    dflt = b[1] if b[0] == "T" else mk("g", b[1], r.epoch) if b[0] == "G" else None
                    if dflt is None or not isinstance(dflt, T):
                        r.mem.pop(b, None)
                        continue
                    x, y = x or dflt, y or dflt
                r.mem[b] = self.join_val(x, y, where, (b,))
            r.facts = {a: x for a, x in ((a, _join_fact(x, s.facts.get(a))) for a, x in r.facts.items())
                       if x is not None}
            r.trace = r.trace & s.trace
            if r.epoch != s.epoch:
                r.epoch = mk("ep", self.uid(("join",) + tuple(where)))
        return r

    def join_val(self, x, y, where, path):
        """least common generalisation of two values: field-wise on updated structs, else a phi"""
        if x is y:
            return x
        bx = x.a[0] if x.k == "upd" else x
        by = y.a[0] if y.k == "upd" else y
        if bx is by and (x.k == "upd" or y.k == "upd"):
            fx = dict(x.a[1]) if x.k == "upd" else {}
            fy = dict(y.a[1]) if y.k == "upd" else {}
            if all(el[0] == "f" for el in list(fx) + list(fy)):
                out = {}
                for el in sorted(set(fx) | set(fy), key=str):
                    o = mk("fld", bx, el[1])
                    out[el] = self.join_val(fx.get(el, o), fy.get(el, o), where, path + (el,))
                return mk("upd", bx, tuple(sorted(out.items(), key=lambda z: str(z[0]))))
        ph = mk("phi", where, path)
        for v in (x, y):
            if v is not ph:
                self.phi_in.setdefault(ph, set()).add(v)
        return ph

    # ---------------------------------------------------------------- blocks
    def exec_block(self, d, body, fid, bb, st):
        blk = body["blocks"][bb]
        sts = st
        for s in blk["st"]:
            if "p" in s:
                v = self.rvalue(sts, fid, body, s["r"], (fid, bb))
                loc = self.loc_of(sts, fid, body, s["p"])
                self.assign(sts, loc, v, s.get("s"), (fid, bb))
            elif "dead" in s:
                sts.mem.pop(("L", fid, s["dead"]), None)
            elif "setdiscr" in s:
                pass
        return self.terminator(d, body, fid, bb, sts, blk["te"])

    def assign(self, st, loc, v, span, site):
        base, path = loc
        if base[0] in ("G", "T"):
            tgt = self.place_name(st, mk("ref", base, path))
            self.emit(st, "write", "=", (tgt, self.snap(st, v)), (), span, site)
        self.write(st, loc, v)

    def rvalue(self, st, fid, body, r, site):
        if "use" in r:
            return self.operand(st, fid, body, r["use"])
        if "ref" in r:
            loc = self.loc_of(st, fid, body, r["ref"])
            if not loc[1] and loc[0][0] == "L":
                v = st.mem.get(loc[0])
                if v is not None and v.k == "g":
                    return mk("ref", ("G", v.a[0]), ())
            if not loc[1] and loc[0][0] == "T" and loc[0][1].k == "g":
                return mk("ref", ("G", loc[0][1].a[0]), ())
            return mk("ref", loc[0], loc[1])
        if "agg" in r:
            ops = [self.operand(st, fid, body, o) for o in r["ops"]]
            a = r["agg"]
            if a == "adt":
                names = r["fields"]
                if r.get("active") is not None:
                    names = [names[r["active"]]]
                return agg(r["adt"], r["variant"] if r["is_enum"] else None, tuple(zip(names, ops)))
            if a == "tuple":
                return tup(*ops) if ops else UNIT
            if a == "array":
                return agg("[]", None, tuple((str(i), o) for i, o in enumerate(ops)))
            if a in ("closure", "coroutine"):
                names = r["names"]
                return mk("clo", r["def"], tuple((names[i] if i < len(names) else str(i), o) for i, o in enumerate(ops)))
            return tup(*ops)
        if "discr" in r:
            loc = self.loc_of(st, fid, body, r["discr"])
            t = self.readv(st, loc)
            return mk("discr", t, tuple(sorted(r["variants"].items())))
        if "bin" in r:
            a = self.operand(st, fid, body, r["a"])
            b = self.operand(st, fid, body, r["b"])
            return self.binop(st, r["bin"], a, b)
        if "un" in r:
            a = self.operand(st, fid, body, r["a"])
            if r["un"] == "Not":
                return self.neg(a) if self.is_boolish(a) else mk("call", "op:not", (self.snap(st, a),))
            if r["un"] == "PtrMetadata":
                return mk("call", "op:len", (self.snap(st, a),))
            return mk("call", "op:" + r["un"].lower(), (self.snap(st, a),))
        if "cast" in r:
            v = self.operand(st, fid, body, r["cast"])
            return self.cast(st, v, r)
        if "repeat" in r:
            o = self.operand(st, fid, body, r["repeat"])
            if o.k == "k" and o.a[0] == "int" and 0 <= o.a[1] < 256 and str(r["n"]).isdigit():
                return mk("k", "raw", "%02x" % o.a[1] * int(r["n"]))
            return mk("call", "op:repeat", (self.snap(st, o),))
        if "tls" in r:
            return mk("g", r["tls"], 0)
        return mk("phi", "rv", str(r)[:60])

    def is_boolish(self, a):
        return True

    INTW = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "usize": 64,
            "i8": 7, "i16": 15, "i32": 31, "i64": 63, "i128": 127, "isize": 63}

    def cast(self, st, v, r):
        f, t = r.get("from", ""), r["ty"]
        if "IntToInt" in r["kind"] and self.INTW.get(t, 999) < self.INTW.get(f, 0):
            if v.k != "k":
                return mk("call", "op:truncate_" + t, (self.snap(st, v),))
        if "Unsize" in r["kind"]:
            m = re.match(r"&(?:mut )?\[u8; (\d+)\]$", f)
            if m:
                self.arrlen[self.snap(st, v)] = int(m.group(1))
        if "FloatToInt" in r["kind"] or "IntToFloat" in r["kind"]:
            return mk("call", "op:float_cast", (self.snap(st, v),))
        return v

    def binop(self, st, op, a, b):
        a, b = self.snap(st, a), self.snap(st, b)
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        m = {"Eq": "eq", "Ne": "ne", "Lt": "lt", "Le": "le", "Gt": "gt", "Ge": "ge"}
        if base in m:
            if a.k == "discr" or b.k == "discr":
                return mk("call", "op:" + m[base], (a, b))
            return self.cmp_term(m[base], a, b)
        if base in ("BitAnd", "BitOr") :
            return mk("call", "op:and" if base == "BitAnd" else "op:or", (a, b))
        nm = base.lower()
        if a.k == "k" and b.k == "k" and a.a[0] == b.a[0] == "int":
            try:
                v = {"add": a.a[1] + b.a[1], "sub": a.a[1] - b.a[1], "mul": a.a[1] * b.a[1]}.get(nm)
                if v is not None:
                    r = kint(v)
                    return tup(r, FALSE) if op.endswith("WithOverflow") else r
            except Exception:
                pass
        r = mk("call", "op:" + nm, (a, b))
        if op.endswith("WithOverflow"):
            return tup(r, mk("call", "op:overflow", (r,)))
        return r

    def terminator(self, d, body, fid, bb, st, te):
        t = te["t"]
        if t == "goto":
            return [(te["to"], st)]
        if t == "return":
            return [("ret", st)]
        if t == "switch":
            return self.switch(st, fid, body, te, bb)
        if t == "drop":
            loc = self.loc_of(st, fid, body, te["p"])
            outs = [(st, None)]
            if loc[0][0] == "L":
                v = st.mem.get(loc[0])
                if v is not None:
                    v = self.read(st, loc)
                    outs = self.drop_value(st, v, (fid, bb), te.get("s"))
                    for s, _ in outs:
                        if not loc[1]:
                            s.mem.pop(loc[0], None)
                        else:
                            self.write(s, loc, MOVED)
            return [(te["to"], s) for s, _ in outs]
        if t == "assert":
            c = self.operand(st, fid, body, te["cond"])
            outs = self.assume_bool(st, c, te["exp"])
            return [(te["to"], s) for s in outs]
        if t == "call":
            return self.call_term(d, body, fid, bb, st, te)
        if t == "yield":
            return []
        return []

    def switch(self, st, fid, body, te, bb):
        v = self.operand(st, fid, body, te["on"])
        out = []
        if v.k == "discr":
            vm = dict(v.a[1])
            seen = []
            for val, tgt in te["cases"]:
                nm = vm.get(val, val)
                seen.append(nm)
                for s in self.assume_variant(st.copy(), v.a[0], nm):
                    out.append((tgt, s))
            rest = [n for n in vm.values() if n not in seen]
            if len(rest) == 1:
                for s in self.assume_variant(st.copy(), v.a[0], rest[0]):
                    out.append((te["else"], s))
            elif rest or not vm:
                for s in self.assume_variant(st.copy(), v.a[0], frozenset(seen)):
                    out.append((te["else"], s))
            return out
        if te["ty"] == "bool":
            for val, tgt in te["cases"]:
                for s in self.assume_bool(st.copy(), v, val != "0"):
                    out.append((tgt, s))
            others = {"0", "1"} - {c[0] for c in te["cases"]}
            for o in others:
                for s in self.assume_bool(st.copy(), v, o != "0"):
                    out.append((te["else"], s))
            return out
        v = self.snap(st, v)
        rest = [st.copy()]
        for val, tgt in te["cases"]:
            c = self.cmp_term("eq", v, kint(int(val)))
            for s in self.assume_bool(st.copy(), c, True):
                out.append((tgt, s))
            nxt = []
            for s in rest:
                nxt += self.assume_bool(s, c, False)
            rest = nxt
        for s in rest:
            out.append((te["else"], s))
        return out

    # ---------------------------------------------------------------- drops
    def drop_value(self, st, v, site, span):
        """run destructors of v -> [(state, None)]"""
        v = self.resolve(st, v)
        if v.k == "case":
            found = []
            self.find_drops_any(v, found)
            if not found:
                return [(st, None)]
            out = []
            for f, x in v.a[0]:
                for s2 in self.assume_all(st.copy(), f):
                    out += self.drop_value(s2, x, site, span)
            return out
        sts = [(st, None)]
        if v.k == "agg":
            if v.a[0] == "scopeguard::ScopeGuard":
                f = dict(v.a[2])
                self.emit(st, "guard_fired", "scopeguard", (self.snap(st, f["value"]), self.snap(st, f["f"])), (), span, site)
                return [(s, None) for s, _ in self.call_value(st, f["f"], [f["value"]], site + ("sg",), span)]
            d = self.p.drop_impls.get(v.a[0])
            if d is not None:
                self.emit(st, "drop", v.a[0], (self.snap(st, v),), (), span, site)
                nf = self.fid(site[0], site + ("drop",), d)
                base = ("L", nf, -1)
                out = []
                st.mem[base] = v
                for s, _ in self.exec_body(d, nf, st, [mk("ref", base, ())]):
                    s.mem.pop(base, None)
                    out.append((s, None))
                sts = out
            for n, x in v.a[2]:
                nxt = []
                for s, _ in sts:
                    if x.k in ("agg", "upd", "case"):
                        nxt += self.drop_value(s, x, site + (n,), span)
                    else:
                        nxt.append((s, None))
                sts = nxt
        elif v.k == "upd":
            for n, x in v.a[1]:
                nxt = []
                for s, _ in sts:
                    nxt += self.drop_value(s, x, site + (str(n),), span)
                sts = nxt
        elif v.k == "clo":
            for n, x in v.a[1]:
                if x.k in ("agg", "upd", "case"):
                    nxt = []
                    for s, _ in sts:
                        nxt += self.drop_value(s, x, site + (n,), span)
                    sts = nxt
        return sts

    def find_drops_any(self, v, out, depth=0):
        if depth > 6 or out:
            return
        if v.k == "agg":
            if v.a[0] == "scopeguard::ScopeGuard" or v.a[0] in self.p.drop_impls:
                out.append(v)
            for _, x in v.a[2]:
                self.find_drops_any(x, out, depth + 1)
        elif v.k == "case":
            for _, x in v.a[0]:
                self.find_drops_any(x, out, depth + 1)

    # ---------------------------------------------------------------- calls
    def call_term(self, d, body, fid, bb, st, te):
        args = [self.operand(st, fid, body, a) for a in te["args"]]
        f = te["f"]
        site = (fid, bb)
        span = te.get("s")
        if "k" in f and "fn" in f["k"]:
            res = self.call_fn(st, f["k"]["fn"], args, site, span, te)
        else:
            fv = self.operand(st, fid, body, f)
            res = self.call_value(st, fv, args, site, span)
        out = []
        if te["to"] is None:
            return []
        for s, v in res:
            loc = self.loc_of(s, fid, body, te["dest"])
            self.assign(s, loc, v, span, site)
            out.append((te["to"], s))
        return out

    def call_value(self, st, fv, args, site, span):
        """call a closure / fn item value with already-spread args"""
        fv = self.resolve(st, fv)
        if fv.k == "ref":
            inner = self.readv(st, (fv.a[0], fv.a[1]))
            if inner.k in ("fn", "case", "ref"):
                return self.call_value(st, inner, args, site, span)
            if inner.k == "clo" and inner.a[0] in self.p.bodies:
                b = self.p.bodies[inner.a[0]]
                selfarg = fv if b["locals"][1]["ty"].startswith("&") else inner
                f = self.fid(site[0], site, inner.a[0])
                return self.collapse(st, self.exec_body(inner.a[0], f, st, [selfarg] + args))
            fv = inner
        if fv.k == "clo" and fv.a[0] in self.p.bodies:
            b = self.p.bodies[fv.a[0]]
            f = self.fid(site[0], site, fv.a[0])
            if b["locals"][1]["ty"].startswith("&"):
                base = ("L", f, -1)
                st = st.copy()
                st.mem[base] = fv
                return self.collapse(st, self.exec_body(fv.a[0], f, st, [mk("ref", base, ())] + args))
            return self.collapse(st, self.exec_body(fv.a[0], f, st, [fv] + args))
        if fv.k == "fn":
            return self.call_fn(st, self.p.fnconsts[fv], args, site, span, None)
        if fv.k == "case":
            out = []
            for fs, v in fv.a[0]:
                for s in self.assume_all(st.copy(), fs):
                    out += self.call_value(s, v, args, site, span)
            return out
        a = tuple(self.snap(st, x) for x in args)
        fvs = self.snap(st, fv)
        t = mk("call", "op:apply", (fvs,) + a)
        self.emit(st, "call", "<indirect>", (fvs,) + a, tuple(self.place_name(st, x) for x in args), span, site)
        return [(st, t)]

    def collapse(self, st0, res):
        """several outcomes of a side-effect-free call -> one state with a conditional value"""
        if len(res) <= 1 or not self.cfg.collapse:
            return res
        s0 = res[0][0]
        m0 = frozenset(s0.mem.items())
        for s, _ in res:
            if s.trace != s0.trace or s.epoch != s0.epoch or len(s.mem) != len(s0.mem):
                return res
        for s, _ in res[1:]:
            if frozenset(s.mem.items()) != m0:
                return res
        if s0.trace != st0.trace or len(res) > 24:
            return res
        base = st0.facts
        common = {a: x for a, x in s0.facts.items() if all(s.facts.get(a) == x for s, _ in res)}
        # variant facts about the returned value itself must stay attached to it
        arms = []
        for s, v in res:
            delta = tuple(sorted(((a, x) for a, x in s.facts.items() if common.get(a) != x), key=lambda z: z[0].h))
            if not delta:
                return res
            arms.append((delta, v))
        if any(self.has_drop(v) for _, v in arms):
            return res
        r = St(dict(s0.mem), dict(common), s0.trace, s0.epoch)
        return [(r, self.mkcase(arms))]

    def has_drop(self, v):
        out = []
        self.find_drops_any(v, out)
        return bool(out)

    def want_inline(self, d):
        b = self.p.bodies.get(d)
        if b is None:
            return False
        if d in self.cfg.opaque or (self.cfg.opaque_re and self.cfg.opaque_re.search(d)):
            return False
        return self.depth_ok(d)

    def is_prim(self, fn):
        """method of a value type that the analysis treats as primitive"""
        d = fn["def"]
        r = (fn.get("res") or {}).get("def", "")
        for p in self.cfg.prim_types:
            if d.startswith(p) or d.startswith("<" + p) or r.startswith(p) or r.startswith("<" + p):
                return True
        mod = tuple(p.rsplit("::", 1)[0] for p in self.cfg.prim_types)
        rr = r or d
        return any(rr.startswith(m + "::<impl ") for m in mod)

    def call_fn(self, st, fn, args, site, span, te):
        import models
        d = fn["def"]
        if "ctor" in fn:
            path = fn["ctor"]
            nm = short(path)
            parent = path.rsplit("::", 1)[0]
            adt = self.p.adts.get(parent)
            fs = tuple((str(i), a) for i, a in enumerate(args))
            if path in ("core::option::Option::Some",):
                return [(st, some(args[0]))]
            if path == "core::result::Result::Ok":
                return [(st, ok(args[0]))]
            if path == "core::result::Result::Err":
                return [(st, err(args[0]))]
            if adt is not None and adt["kind"] == "Enum" or path not in self.p.adts:
                return [(st, agg(parent, nm, fs))]
            return [(st, agg(path, None, fs))]
        if NOISE.search(d) and not (self.cfg.logs and d.startswith("ic_canister_log::")):
            if self.cfg.fmt:
                r = models.formatting(self, st, fn, d, args, site, span)
                if r is not None:
                    return r
            else:
                r = models.shown_as(self, st, fn, d, args, site, span)
                if r is not None:
                    return r
            return [(st, mk("k", "zst", "fmt"))]
        if PANICS.search(d):
            self.emit(st, "panic", d, (), (), span, site)
            return []
        res = fn.get("res") or {}
        target = res.get("def", d)
        if self.cfg.watch and self.cfg.watch.search(target):
            self.emit(st, "enter", target, tuple(self.snap(st, a) for a in args),
                      tuple(self.place_name(st, a) for a in args), span, site)
        r = models.model(self, st, fn, target, args, site, span, te)
        if r is not None:
            return r
        b = self.p.bodies.get(target)
        if b is None and "trait" in fn and not res:
            b, target = self.dispatch(fn, site, target)
        if b is None and "trait" in fn and not res:
            # unresolved trait method in a generic body: dispatch on the receiver's type if known
            t0 = self.snap(st, args[0]) if args else None
            if t0 is not None and t0.k == "agg":
                for ib in self.p.trait_impls.get((fn["trait"], fn["name"]), []):
                    if _strip_gen(ib["impl_self"]) == t0.a[0]:
                        b, target = ib, ib["def"]
            cands = self.p.trait_impls.get((fn["trait"], fn["name"]), [])
            if b is None and len(cands) == 1 and self.p.crate_trait(fn["trait"]):
                b, target = cands[0], cands[0]["def"]
        if b is not None and not self.is_prim(fn) and self.want_inline(target):
            f = self.fid(site[0], site, target)
            self.bind_generics(f, site, b, res.get("args") or fn.get("args"))
            return self.collapse(st, self.exec_body(target, f, st, args))
        return self.opaque_call(st, fn, target, args, site, span, te)

    # type parameters of generic bodies, as instantiated at the call that is being looked through
    def bind_generics(self, f, site, b, args):
        gs = b.get("generics") or []
        if gs and args and len(gs) == len(args):
            self.genv[f] = {g: self.tysub(site[0], a) for g, a in zip(gs, args)}

    def tysub(self, f, ty):
        n = 0
        while f in self.fmeta and f not in self.genv and n < 20 and \
                self.p.bodies.get(self.fmeta[f][2], {}).get("kind") in ("closure", "coroutine"):
            f = self.fmeta[f][0]
            n += 1
        return self.genv.get(f, {}).get(ty, ty)

    def dispatch(self, fn, site, target):
        """implementation of a trait method for the instantiated type parameters"""
        args = fn.get("args") or []
        f = site[0] if isinstance(site, tuple) else None
        con = [self.tysub(f, a) for a in args]
        if con == args:
            return None, target
        for ib in self.p.trait_impls.get((fn["trait"], fn.get("name")), []):
            if ib.get("impl_args") == con:
                return ib, ib["def"]
        return None, target

    def opaque_call(self, st, fn, target, args, site, span, te):
        name = target
        sn = tuple(self.snap(st, a) for a in args)
        places = tuple(self.place_name(st, a) for a in args)
        if target in self.p.bodies:
            self.opaque_local[target] = self.opaque_local.get(target, 0) + 1
        argtys = te["argtys"] if te else []
        muts = [i for i, a in enumerate(args) if a.k == "ref" and (i < len(argtys) and argtys[i].startswith("&mut")
                                                                   or not argtys)]
        impure = bool(muts) or target in IMPURE
        t = mk("call", canon(fn["def"], target), sn) if not impure else \
            mk("call", canon(fn["def"], target), sn, self.uid(site))
        import models
        nonlocal_mut = any(self.deref(st, args[i])[0][0] in ("G", "T") for i in muts)
        e = None
        if nonlocal_mut or target in self.opaque_local or self.cfg.record_pure or (
                models.EFFECT.match(name) and name not in models.PURE_IC) or self.is_deferred(name):
            tr = st.trace
            e = self.emit(st, "call", name, sn, places, span, site)
            e.result = t
            e.extra = "mut" if muts else "ro"
            b = self.p.bodies.get(target)
            if self.cfg.exact and not impure and b is not None and not b.get("asyncness") and b["locals"][0]["ty"] != "()" and \
                    not models.EFFECT.match(name) and not self.is_deferred(name):
                st.trace = tr           # reads only
        for i in muts:
            a = args[i]
            old = self.read(st, (a.a[0], a.a[1]))
            self.write(st, (a.a[0], a.a[1]), mk("mutd", self.snap(st, old), canon(fn["def"], target),
                                                 sn[:i] + sn[i + 1:], self.uid(site)))
        # closures handed to unmodelled code may run: analyse them for their effects
        for i, a in enumerate(args):
            av = self.resolve(st, a)
            if av.k == "clo" and self.p.bodies.get(av.a[0], {}).get("kind") == "closure" and not self.is_deferred(name):
                self.unmodelled[name] = self.unmodelled.get(name, 0) + 1
                nargs = self.p.bodies[av.a[0]]["argc"] - 1
                sub = self.call_value(st.copy(), av, [mk("phi", "cb", i, j, self.uid(site)) for j in range(nargs)],
                                      site + ("cb", i), span)
            elif av.k == "clo" and self.is_deferred(name):
                self.deferred.append((name, av, self.snap(st, av), dict(st.facts), st.trace, span, e))
        return [(st, t)]

    def is_deferred(self, name):
        return name in ("ic_cdk::spawn", "ic_cdk_timers::set_timer", "ic_cdk_timers::set_timer_interval",
                        "ic_cdk::futures::spawn")


def canon(d, target):
    return target if target else d


def _compat(a, b):
    if a == b:
        return True
    if isinstance(a, str) and isinstance(b, frozenset):
        return a not in b
    if isinstance(b, str) and isinstance(a, frozenset):
        return b not in a
    if isinstance(a, frozenset) and isinstance(b, frozenset):
        return True
    return False


def _join_fact(x, y):
    if x == y:
        return x
    if x is None or y is None or isinstance(x, bool) or isinstance(y, bool):
        return None
    if isinstance(x, frozenset) and isinstance(y, frozenset):
        return (x & y) or None
    if isinstance(x, frozenset) and isinstance(y, str) and y not in x:
        return x
    if isinstance(y, frozenset) and isinstance(x, str) and x not in y:
        return y
    return None


def _is_iterty(ty):
    return bool(re.search(r"(::iter::|Iter<|IntoIter|iter::adapters|Drain<|Peekable|Chunks)", ty))


def _places(s):
    out = []

    def rec(x):
        if isinstance(x, dict):
            for k, v in x.items():
                if k in ("c", "m", "ref", "discr", "p") and isinstance(v, list) and v and isinstance(v[0], int):
                    out.append(v)
                else:
                    rec(v)
        elif isinstance(x, list):
            for y in x:
                rec(y)
    rec(s)
    return out
