"""Recorded specification tables: the decision table of a function (condition -> result, effects on its by-reference
arguments) as reviewed on the reference tree, kept under analysis/tables, and the comparison of the current source with it.

Both sides are canonical terms (see spec.py), obtained from the type-checked program with every helper function looked
through, so that the comparison is about which value results under which condition, not about how the code is written.
A row of the current source disagrees when its condition is compatible with a recorded row whose result is different.
A disagreement is a violation unless the difference consists of a condition or a value in a form whose meaning
this comparison does not know (a loop instead of a combinator, an unknown library function): then there is no verdict.
"""
import zlib
import json
import os

from spec import *
from spec import _P
from core import _strip_gen
import spec

TABLES = os.path.join(VERIF, "analysis", "tables")

#: collection and iteration operators that have several equivalent forms: a different use of one of them is no verdict
EQUIVOCAL = set("""len is_empty any all find next count_of first last contains contains_key position coll seq filter map
fold rev sort sort_by sort_by_key sort_unstable sort_unstable_by_key dedup chain zip take skip take_while skip_while
max_of min_of sum_of max_by_key min_by_key partition retain extend append drain pop pop_front pop_back push_front
elem idx lam phi case keys values values_mut iter collect join fmt flatten enumerate range select_nth reduce last_key_value
first_key_value pop_first pop_last entry chunks windows""".split())

#: plain data structure updates, whose misuse is a violation
UPDATES = set("""push insert remove get setget insert_str remove_entry get_alt insert_with_alt_key try_insert remove_entry_alt
contains_alt alt altkey mget try_insert_dedup alt_keys_iter get_entry drain get_mut unwrap_or clear checked_inc checked_dec checked_div_ceil
checked_div_floor fits into_wei_per_gas try_into as_ref to_string""".split())


#: parts of the state that only an upgrade changes: it does not matter when they are read
CONFIG = set("""evm_network ecdsa_key_name native_ledger_id native_index_id native_symbol helper_contract_address evm_canister_id
native_ledger_transfer_fee native_minimum_withdrawal_amount block_height first_scraped_block_number deposit_native_fee withdrawal_native_fee
ledger_suite_manager_id swap_canister_id""".split())


#: forms of effects of a task
EFFECTS = set("flow end again apply record do set guard_fired holding ondrop set_timer set_timer_interval runs duration TimerGuard Guard".split())

#: operations left opaque, which do different things: one is not a way of writing another
SERVICES = set("""from_state_all_providers from_state_one_provider_public_node from_state_one_provider_ankr get_logs get_block_by_number
get_transaction_receipt fee_history get_finalized_transaction_count get_latest_transaction_count send_raw_transaction burn_from
trasnfer_withdrawal_fee refund_withdrawal_fee transfer transfer_from lazy_refresh_gas_fee_estimate latest_transaction_count
finalized_transaction_count resubmit_transactions_batch create_transactions_batch sign_transactions_batch send_transactions_batch
finalize_transactions_batch minter_address scrape_logs mint caller time process_retrieve_tokens_requests process_reimbursement
reduce_with_equality reduce_with_strict_majority_by_key reduce_with_only_one_key reduce_with_min_by_key from_multi_result""".split())


def fewer(arms):
    """arms without distinctions that make no difference: None -> None, Some(y) -> Some(y) is the identity"""
    arms = list(dict.fromkeys(arms))
    done = False
    while not done:
        done = True
        for a in arms:
            for key, v in a[0][1]:
                if v != "Some" or key[0] != "is":
                    continue
                x = key[1]
                w = subst(a[1], {("agg", "Some", (("0", ("vf", x, "0")),)): x})
                rest = tuple(z for z in a[0][1] if z[0] != key)
                for b in arms:
                    if b is not a and b[0][0] == a[0][0] and (key, "None") in b[0][1] and tuple(z for z in b[0][1] if z[0] != key) == rest \
                            and b[1] == subst(w, {x: ("agg", "None", ())}):
                        arms = [z for z in arms if z is not a and z is not b]
                        if ((a[0][0], rest), w) not in arms:
                            arms.append(((a[0][0], rest), w))
                        done = False
                        break
                if not done:
                    break
            if not done:
                break
    return arms


def is_next(a, v=None):
    return a.k == "is" and a.a[0].k == "call" and opname(a.a[0]) == "next" and a.a[0].a[1][0].k == "iter"


def gathered(e):
    """loops that only collect what they compute from each element: the collections they build, as if by map, filter and
    collect.  Sets e.gath: phi -> collection, e.gath_next: tests whether there is another element"""
    if getattr(e, "gath", None) is not None:
        return
    e.gath, e.gath_next = {}, set()
    for _ in range(4):
        n = len(e.gath_next)
        for key, phis in e.loopphis.items():
            gather(e, key, phis)
        if len(e.gath_next) == n:
            return


def gather(e, key, phis):
    B = [s for bd, f, h, s in e.backs if (f, h) == key and s is not None]
    if not B or not phis:
        return
    t = None
    for s in B:
        ts = [a for a, v in s.facts.items() if is_next(a) and v == "Some" and a not in e.gath_next]
        if not ts or (t is not None and ts[-1] is not t):
            return
        t = ts[-1]
    if any(s.facts.get(t) == "Some" for s, _ in e.rets):
        return
    for bd, f, h, s in e.backs:
        if s is not None and (f, h) != key and s.facts.get(t) == "Some" and not (isinstance(h, tuple) and h[0] == "skip") and not inner(e, (f, h), s, t):
            return
    body = set()
    for ev in e.events:
        if ev.facts.get(t) == "Some" and ev.kind != "panic":
            body.add(ev.key)
    groups = {}
    for s in B:
        if s.trace & body:
            return
        items = list(s.facts.items())
        i = next(i for i, (a, _) in enumerate(items) if a is t)
        pre = frozenset(items[:i])
        delta = tuple((a, v) for a, v in items[i + 1:] if a not in e.gath_next)
        groups.setdefault(pre, []).append((s, delta))
    src = t.a[0].a[1][0].a[0]
    out = {}
    mine = set(phis.values())
    for l, ph in phis.items():
        res = None
        news = set()
        for pre, xs in groups.items():
            arms = []
            for s, delta in xs:
                new = s.mem.get(("L", key[0], l)) if not isinstance(l, tuple) else s.mem.get(l)
                if new is None:
                    return
                new = e.snap(s, new)
                news.add(new)
                if new is ph:
                    continue
                if not (new.k == "mutd" and new.a[0] is ph and short_op(new.a[1]) in ("push", "insert", "push_back")):
                    return
                a = new.a[2]
                v = a[0] if len(a) == 1 else tup(*a) if short_op(new.a[1]) == "insert" and len(a) == 2 else None
                if v is None or any(contains(q, lambda x: x in mine) for q in (v,) + tuple(a for a, _ in delta)):
                    return
                arms.append((delta, v))
            arms = frozenset(arms)
            if res is not None and res != arms:
                return
            res = arms
        for x in e.phi_in.get(ph, ()):
            if x not in news and x is not ph and not (x.k == "agg" and x.a[0] == "[]" and not x.a[2] or x.k == "k" and x.a[0] == "raw" and not x.a[1]):
                return
        if not res:
            return
        out[ph] = mk("coll", src, tuple(sorted(res, key=repr)))
    e.gath.update(out)
    e.gath_next.add(t)


def rounds(e, s):
    """the end of a round of a collecting loop (and not of a loop around it)"""
    ts = [a for a, v in s.facts.items() if is_next(a) and v == "Some"]
    return bool(ts) and ts[-1] in e.gath_next


def short_op(o):
    return o.rsplit(":", 1)[-1] if isinstance(o, str) else ""


def inner(e, key, s, t):
    """s is the end of a round of a loop inside the loop of t"""
    items = list(s.facts.items())
    return any(is_next(a) and v == "Some" for a, v in items[next(i for i, (a, _) in enumerate(items) if a is t) + 1:])


def through(src, arms):
    """a selection from a selection"""
    if src[0] == "coll" and len(src[2]) == 1 and not any(mentions(z, ("elem", src)) for z in arms):
        c0 = load_cond(None, src[2][0][0], ())
        arms = [(dump_cond(merged(c0, load_cond(None, c, ()))), v) for c, v in arms]
        return through(src[1], arms)
    if src[:2] == ("call", "seq") and not any(mentions(z, ("elem", src)) for z in arms):
        return through(src[2][0], arms)
    return src, arms


def put(x, y, z):
    """x with y replaced by z, and the fields of tuples built read off"""
    if x == y:
        return z
    if not isinstance(x, tuple):
        return x
    r = tuple(put(w, y, z) for w in x)
    if r[:1] == ("fld",) and len(r) == 3 and isinstance(r[1], tuple) and r[1][:1] == ("agg",) and r[1][2] and isinstance(r[1][2][0], tuple):
        d = dict(f for f in r[1][2] if isinstance(f, tuple) and len(f) == 2)
        return d.get(r[2], r)
    return r


def mapped(src, v):
    """a value for every element of a part of a selection: a part of the selection of those values"""
    if src[:1] == ("call",) and src[1] in ("take", "skip", "step_by") and len(src[2]) == 2:
        inner, n = src[2]
        if inner[0] == "coll":
            arms = tuple(sorted(fewer((c, put(v, ("elem", src), w)) for c, w in inner[2]), key=repr))
            return ("call", src[1], (("coll", inner[1], arms), n))
        if inner[:2] == ("call", "seq"):
            return ("call", src[1], (("call", "seq", (inner[2][0], put(v, ("elem", src), inner[2][1]))), n))
    return ("call", "seq", (src, v))


def mentions(x, y):
    return x == y or isinstance(x, tuple) and any(mentions(z, y) for z in x)


def counted(x):
    """the number of elements: what each of them is does not matter"""
    if x[:2] == ("call", "seq"):
        return counted(x[2][0])
    if x[0] == "coll":
        arms = fewer((c, ("unit",)) for c, _ in x[2])
        if len(arms) == 1 and arms[0][0] == ((), ()):
            return counted(x[1])
        return ("call", "len", (("coll", x[1], tuple(sorted(arms, key=repr))),))
    return ("call", "len", (x,))


class GCanon(Canon):
    """canonical terms independent of identifiers of the analysis run"""
    arith = True
    replies = None          # await term -> ordinal, on the path being described
    marks = None            # suspension event -> name, on that path
    dyn = True

    def when(self, ep):
        """name of a point in time: after which suspension of the path"""
        for k in self.e.epoch_src.get(ep, ()):
            if k in self.marks:
                return self.marks[k]
        return "later"

    def __init__(self, ctx, erase0=()):
        super().__init__(ctx, erase0)
        self.busy = []

    def const(self, path):
        r = spec.Canon.const(self, path)
        return r

    def _c1g(self, t):
        k = t.k
        if k == "vf" and t.a[0].k == "call" and t.a[1] in ("*", "Some", "Ok"):
            o, a = opname(t.a[0]), t.a[0].a[1]
            if o in ("checked_add", "checked_sub") and len(a) == 2:
                return self._c(mk("call", "op:" + o[8:], a))
            if o == "checked_mul" and len(a) == 2:
                return self._c(mk("call", "op:mul", a))
            if o in ("checked_inc", "checked_dec") and len(a) == 1:
                return self._c(mk("call", "op:" + ("add" if o == "checked_inc" else "sub"), (a[0], kint(1))))
            if o == "get" and len(a) == 2 and a[1].k == "agg" and short(a[1].a[0]) in ("Range", "RangeTo", "RangeFrom"):
                return self._slice(self.c(a[0]), a[1])
        if k == "call" and any(isinstance(x, T) and x.k == "uid" for x in t.a[1]):
            return self.c(mk("call", t.a[0], tuple(x for x in t.a[1] if x.k != "uid")))
        if k == "await" and self.replies is not None:
            n = self.replies.get(t)
            c = t.a[0]
            return ("reply", short(_strip_gen(c.a[0])) if c.k == "call" else c.k, n if n is not None else 0)
        if k == "g" and self.replies is not None and t.a[0] == STATE and self.dyn:
            ep = t.a[1]
            if not isinstance(ep, T):
                return ("g", t.a[0])
            return ("g", t.a[0], self.when(ep))
        if k == "fld" and self.replies is not None and t.a[1] in CONFIG and is_state(t.a[0]):
            self.dyn, d = False, self.dyn
            memo, self.memo = self.memo, {}
            try:
                return super()._c1(t)
            finally:
                self.dyn, self.memo = d, memo
        if k == "idx":
            return ("idx",)
        if k == "clo":
            return self._lam(t)
        if k == "phi":
            if self.e is not None and t in (getattr(self.e, "gath", None) or ()):
                return self.c(self.e.gath[t])
            if t in self.busy:
                return ("phi", "self%d" % (len(self.busy) - self.busy.index(t)))
            ins = (self.e.phi_in.get(t) if self.e is not None else None) or set()
            if len(self.busy) > 2 or not ins or len(ins) > 6:
                return ("phi", "?")
            self.busy.append(t)
            memo, self.memo = self.memo, {}
            try:
                r = ("phi", tuple(sorted((self.c(x) for x in ins), key=repr)))
            finally:
                self.busy.pop()
                self.memo = memo
            return r
        if k == "k" and t.a[0] == "duration":
            raw = bytes.fromhex(t.a[1])
            return ("call", "duration", (("int", int.from_bytes(raw[:8], "little") * 10 ** 9 + int.from_bytes(raw[8:12], "little")),))
        if k == "call" and (opname(t) or "").startswith("duration_from_") and len(t.a[1]) == 1:
            u = {"secs": 9, "millis": 6, "micros": 3, "nanos": 0}.get(opname(t)[14:])
            x = self.c(t.a[1][0])
            if u is not None and x[0] == "int":
                return ("call", "duration", (("int", x[1] * 10 ** u),))
        if k in ("k",) and t.a[0] == "default":
            return ("call", "default", ())
        if k == "case":
            return ("case", tuple(sorted(fewer((self.facts(f), self.c(v)) for f, v in t.a[0]), key=repr)))
        if k == "coll":
            src = self.c(t.a[0])
            if src in (("bytes", ""), ("agg", "[]", ())):
                return src
            if len(t.a[1]) == 1 and not t.a[1][0][0]:
                return mapped(src, self.c(t.a[1][0][1]))
            arms = fewer((self.facts(f), self.c(x)) for f, x in t.a[1])
            src, arms = through(src, arms)
            if len(arms) == 1 and arms[0][0] == ((), ()):
                return mapped(src, arms[0][1])
            return ("coll", src, tuple(sorted(arms, key=repr)))
        if k == "joinall":
            return ("joinall",) + tuple(self.c(x) for x in t.a if isinstance(x, T))
        if k == "chain":
            return ("call", "chain", tuple(self.c(x) for x in t.a[0]))
        if k == "zip":
            return ("call", "zip", (self.c(t.a[0]), self.c(t.a[1])))
        if k == "call" and opname(t) in ("fold",):
            return ("call", "fold", tuple(self.c(x) for x in t.a[1]))
        return super()._c1(t)

    def _c1(self, t):
        r = self._c1g(t)
        if r[:2] == ("call", "len") and len(r[2]) == 1:
            return counted(r[2][0])
        if r[:2] == ("call", "skip") and r[2][0][:2] == ("call", "skip") and r[2][1][:1] == r[2][0][2][1][:1] == ("int",):
            return ("call", "skip", (r[2][0][2][0], ("int", r[2][1][1] + r[2][0][2][1][1])))
        if r[:2] == ("call", "into_writer") and r[2][0][:1] == ("mutd",) and r[2][0][2] == "encode":
            w = r[2][0][1]
            return ("mutd", w[2][0] if w[:2] == ("call", "new") and len(w[2]) == 1 else w, "encode", r[2][0][3])
        if r[:2] == ("call", "encode") and len(r[2]) == 2 and r[2][0][:2] == ("call", "new") and len(r[2][0][2]) == 1:
            return ("call", "encode", (r[2][0][2][0], r[2][1]))
        return r

    def facts(self, fs):
        """a set of facts as a canonical condition"""
        c = GCond(self)
        for a, v in fs:
            c.add(a, v)
        return dump_cond(c)

    def _lam(self, t):
        b = self.ctx.p.bodies.get(t.a[0])
        if b is None or self.e is None or len(self.busy) > 2:
            return ("?", "clo", short(t.a[0]))
        e = self.e
        self.busy.append(t)
        memo, self.memo = self.memo, {}
        st0, self.st = self.st, None
        try:
            st = (st0.copy() if st0 is not None else St())
            base = dict(st.facts)
            n = max(b["argc"] - 1, 0)
            args = [mk("p", "x%d" % i) for i in range(n)]
            try:
                outs = e.call_value(st, t, args, (0, "lam"), None)
            except Exception:
                return ("?", "clo", short(t.a[0]))
            rows = []
            for s, v in outs:
                rows.append((self.facts([(a, x) for a, x in s.facts.items() if base.get(a) != x]), self.c(e.snap(s, v))))
            return ("lam", tuple(sorted(set(rows), key=repr)))
        finally:
            self.busy.pop()
            self.memo, self.st = memo, st0


#: selections that find something exactly if there is something
NONEMPTY = set("first last max_by_key min_by_key max_of min_of first_key_value last_key_value".split())


class GCond(Cond):
    def add(self, a, v):
        if a.k == "is" and a.a[0].k == "call":
            o, x = opname(a.a[0]), a.a[0].a[1]
            vv = v
            if isinstance(v, frozenset) and len(v) == 1:
                vv = {"Some": "None", "None": "Some"}.get(list(v)[0])
            if vv in ("Some", "None"):
                if o == "checked_sub" and len(x) == 2:
                    return super().add(mk("call", "op:le", (x[1], x[0])), vv == "Some")
                if o == "checked_dec":
                    return super().add(mk("call", "op:eq", (x[0], kint(0))), vv == "None")
                if o in ("checked_add", "checked_inc", "checked_mul"):
                    y = x + (kint(1),) if o == "checked_inc" else x
                    c = self.cn.c(mk("call", "op:mul" if o == "checked_mul" else "op:add", y))
                    return self._lit(("call", "fits", (c,)), vv == "Some")
        if opname(a) == "contains" and len(a.a[1]) == 2 and a.a[1][1].k == "elem" and a.a[1][1].a[0] is a.a[1][0]:
            self.bad |= v is False
            return                      # an element of a collection is in it
        if a.k == "is" and v == "Some" and opname(a.a[0]) == "next" and a.a[0].a[1][0].k == "iter":
            src = a.a[0].a[1][0].a[0]       # there is an element: the collection is not empty
            while src.k == "coll" and len(src.a[1]) == 1 and not src.a[1][0][0]:
                src = src.a[0]
            n = len(self.atoms)
            super().add(mk("call", "op:is_empty", (src,)), False)
            del self.atoms[n:]
        if opname(a) == "any" and len(a.a[1]) == 2 and isinstance(v, bool):
            pred, arms = a.a[1][1], []
            for fs, x in (pred.a[0] if pred.k == "case" else (((), pred),)):
                c = GCond(self.cn)
                for b, y in tuple(fs) + ((x, True),):
                    if b.k == "k" and b.a[0] == "bool":
                        c.bad |= bool(b.a[1]) != y
                    else:
                        c.add(b, y)
                if not c.bad:
                    arms.append((dump_cond(c), ("unit",)))
            src, arms = through(self.cn.c(a.a[1][0]), fewer(arms))
            k = counted(("coll", src, tuple(arms))) if arms else ("int", 0)
            self.atoms.append(k)
            return self._bound({k: 1} if arms else {}, 0, "ne" if v else "eq")
        if a.k == "is" and a.a[0].k == "call" and opname(a.a[0]) in NONEMPTY and len(a.a[0].a[1]) >= 1 and v in (
                "Some", "None", frozenset(["Some"]), frozenset(["None"])):
            return self.add(mk("call", "op:is_empty", (a.a[0].a[1][0],)), v in ("None", frozenset(["Some"])))
        if opname(a) in ("eq", "ne") and len(a.a[1]) == 2 and isinstance(v, bool):
            for x, y in (a.a[1], a.a[1][::-1]):
                if y.k == "k" and y.a[0] == "str" and x.k != "k":       # strings compared: one value of many
                    k = ("call", "text", (self.cn.c(x),))
                    self.atoms.append(("cmp", k, ("str", y.a[1])))
                    return self._bound({k: 1}, -zlib.crc32(str(y.a[1]).encode()) - 1, "eq" if v is (opname(a) == "eq") else "ne")
                if x.k == "coll" and self.cn.c(y) in (("bytes", ""), ("agg", "[]", ())):
                    return self.add(mk("call", "op:is_empty", (x,)), v is (opname(a) == "eq"))
        if opname(a) == "is_empty":
            src = a.a[1][0]
            while src.k == "coll" and len(src.a[1]) == 1 and not src.a[1][0][0]:
                src = src.a[0]
            return super().add(mk("call", "op:is_empty", (src,)), v)
        return super().add(a, v)


# ------------------------------------------------------------------------------------------------ (de)serialisation


def dump_cond(c):
    return (tuple(sorted(((k, lo, hi, tuple(sorted(ex))) for k, (lo, hi, ex) in c.lin.items()), key=repr)),
            tuple(sorted(((k, ("fs",) + tuple(sorted(v, key=repr)) if isinstance(v, frozenset) else v) for k, v in c.lit.items()), key=repr)))


def load_cond(cn, x, atoms):
    c = GCond(cn)
    for k, lo, hi, ex in x[0]:
        c.lin[k] = [lo, hi, set(ex)]
    for k, v in x[1]:
        c.lit[k] = frozenset(v[1:]) if isinstance(v, tuple) and v and v[0] == "fs" else v
    c.atoms = list(atoms)
    return c




def pc(c):
    """printed form of a dumped condition"""
    out = []
    for k, lo, hi, ex in c[0]:
        out.append("%s%s%s%s" % ("%s <= " % lo if lo is not None else "", pp(("lin", k, 0)), " <= %s" % hi if hi is not None else "",
                                 "".join(" != %s" % x for x in sorted(ex))))
    for k, v in c[1]:
        if isinstance(v, tuple) and v and v[0] == "fs":
            out.append("%s not %s" % (pp(k), "/".join(map(str, v[1:]))))
        else:
            out.append("%s = %s" % (pp(k), v))
    return out


_pp0 = spec.pp


def pp(x):
    if isinstance(x, tuple) and x:
        if x[0] == "vf" and x[1][:2] == ("g", STATE):
            return "S" if len(x[1]) == 2 else "S@" + x[1][2]
        if x[0] == "vf" and isinstance(x[2], tuple) and not str(x[2][1]).isdigit():
            return pp(x[1]) + "?." + x[2][1]
        if x[0] == "reply":
            return "%s#%s" % (x[1], x[2])
        if x[0] in ("case", "lam") and isinstance(x[1], tuple):
            return "%s{%s}" % (x[0], " | ".join("%s => %s" % (" & ".join(pc(c)), pp(v)) for c, v in x[1]))
        if x[0] == "coll":
            return "collect(%s: %s)" % (pp(x[1]), " | ".join("%s => %s" % (" & ".join(pc(c)), pp(v)) for c, v in x[2]))
        if x[0] == "upd":
            return "%s with {%s}" % (pp(x[1]), ", ".join(
                "%s = %s" % (".".join(str(z) if not isinstance(z, tuple) else pp(z) for z in y[0][1:]) if isinstance(y[0], tuple) else y[:-1], pp(y[-1])) for y in x[2]))
    return _pp0(x)


spec.pp = pp


# ------------------------------------------------------------------------------------------------ extraction


def erase_strings(x):
    """messages are not part of the behaviour compared"""
    if not isinstance(x, tuple):
        return x
    if x and x[0] == "call" and x[1] in ("fmt",):
        return ("call", "fmt", ())
    return tuple(erase_strings(y) for y in x)


class Row:
    __slots__ = ("cond", "value", "mem", "atoms", "facts", "effects")


def rows_of(ctx, d, args=None, prim=True, erase=(), msgs=False, opaque=None, panics=True, keep=None, drop=None,
            results=None, effects=None, lim=4000, only_args=None, valpost=None, failmem=True, **kw):
    """canonical rows of a function; None if the analysis gave up"""
    b = ctx.p.bodies[d]
    names = [str(i) for i in range(b["argc"])]
    if not prim:
        kw.setdefault("prim_types", ())
    tag = "gold" + (repr(args) if args else "")
    e = ctx.run(d, tag=tag, args=args, argnames=names, exact=True, collapse=False, max_disjuncts=lim,
                opaque_re=re.compile(opaque) if opaque else RPC_OPAQUE, **kw)
    if e.trunc is not None:
        return None, e
    gathered(e)
    cn = GCanon(ctx, erase)
    src = [(s.facts, v, s, None) for s, v in truths(ctx, e, d)]
    if panics:
        for ev in e.events:
            if ev.kind == "panic" and not (ev.args and contains(ev.args[0], lambda x: opname(x) == "overflow")) \
                    and "overflow" not in ev.name:
                src.append((ev.facts, None, None, ev))
    out = {}
    evs = {}
    if effects:
        for ev in e.events:
            if effects.search(ev.name) and ev.kind in ("call", "suspend", "write"):
                evs.setdefault(ev.key, ev)
    for bd, fid, hd, s in e.backs:
        if s is not None and not rounds(e, s):
            src.append((s.facts, ("back", fid, hd), s, None))
    for facts, v, s, ev in src:
        cn.e, cn.st, cn.memo = e, s, {}
        c = GCond(cn)
        for a, x in facts.items():
            if infallible(a):
                c.bad |= x in ("None", "Err") or x in (frozenset(["Some"]), frozenset(["Ok"]))
                continue
            if drop is not None and drop(a, x) or a in e.gath_next:
                continue
            c.add(a, x)
        if c.bad:
            continue
        f = (lambda y: y) if msgs else erase_strings
        if isinstance(v, tuple):            # one more round of a loop: what it carries over
            chg = []
            for l, ph in e.loopphis.get((v[1], v[2]), {}).items():
                if True:
                    new = s.mem.get(("L", v[1], l))
                    if new is not None and new is not ph:
                        chg.append((cn.c(ph), cn.c(e.snap(s, new))))
            cv = f(("call", "again", tuple(("agg", "()", (("0", a), ("1", b))) for a, b in sorted(chg, key=repr))))
        else:
            cv = f(normal(cn.c(e.snap(s, v)), lengths(cn, e))) if v is not None else ("panic",)
        if valpost:
            cv = valpost(cv)
        cm = {}
        if s is not None:
            for k, x in s.mem.items():
                if k[0] == "T" and k[1].k == "p" and x is not k[1]:
                    n = str(k[1].a[0])
                    if only_args is not None and n not in only_args:
                        continue
                    y = f(normal(cn.c(e.snap(s, x)), lengths(cn, e)))
                    if y != cn.c(k[1]):
                        cm[n] = y
        if not failmem and cv[:2] == ("agg", "Err"):
            cm = {}
        r = Row()
        r.cond, r.value, r.mem, r.atoms, r.facts = c, cv, cm, tuple(c.atoms), facts
        if results is not None and not results(r):
            continue
        out.setdefault((dump_cond(c), cv, tuple(sorted(cm.items()))), r)
    return list(out.values()), e


def truths(ctx, e, d):
    """the outcomes, those that are a test split by whether it holds"""
    b = ctx.p.bodies.get(d)
    for s, v in e.rets:
        if b is None or b["locals"][0]["ty"] != "bool" or v.k == "k":
            yield s, v
            continue
        n = 0
        for x in (True, False):
            for s2 in e.assume_bool(s.copy(), e.snap(s, v), x):
                n += 1
                yield s2, mk("k", "bool", x)
        if not n:
            yield s, v


def joined(x):
    """byte vectors built step by step, as the list of their parts"""
    if not isinstance(x, tuple):
        return x
    x = tuple(joined(y) for y in x)

    def parts(y):
        if y[:2] == ("call", "joined"):
            return list(y[2])
        if y == ("bytes", "") or y[:2] == ("agg", "[]") and len(y) == 3 and not y[2]:
            return []
        if y[:2] == ("agg", "[]") and len(y) == 3:
            return [("byte", v) for _, v in y[2]]
        return [y]
    if x and x[0] == "mutd" and len(x) == 4 and isinstance(x[3], tuple):
        o, a = x[2], x[3]
        if o in ("extend", "extend_from_slice", "append") and len(a) == 1:
            return ("call", "joined", tuple(parts(x[1]) + parts(a[0])))
        if o == "push" and len(a) == 1:
            return ("call", "joined", tuple(parts(x[1]) + [("byte", a[0])]))
        if o == "insert" and len(a) == 2 and a[0] == ("int", 0):
            return ("call", "joined", tuple([("byte", a[1])] + parts(x[1])))
    if x and x[:2] == ("call", "concat") and len(x[2]) == 1 and x[2][0][:2] == ("agg", "[]") and len(x[2][0]) == 3:
        return ("call", "joined", tuple(p for _, v in x[2][0][2] for p in parts(v)))
    return x


TIMERS = re.compile(r"(set_timer|set_timer_interval|clear_timer|spawn|trap|set_certified_data|set_rpc_api_key|accept_message|msg_cycles_accept\d*)$")


def effect_of(ctx, cn, e, ev, opq=None):
    """canonical form of an effect (None: not an effect)"""
    n = _strip_gen(ev.name)
    if ev.kind == "suspend":
        hold = sorted({x for x in (held(ctx, cn, g) for g in ev.alive) if x is not None}, key=repr)
        return ("call", "await:" + short(n), tuple(cn.c(a) for a in ev.args) + ((("call", "holding", tuple(hold)),) if hold else ()))
    if ev.kind == "guard_fired":
        return ("call", "guard_fired", tuple(cn.c(a) for a in ev.args[:1]))
    if ev.kind == "write":
        tgt = ev.args[0]
        if not contains(tgt, lambda x: x.k == "g"):
            return None
        return ("call", "set", (cn.c(base_place(tgt)), cn.c(ev.args[1])))
    if ev.kind != "call":
        return None
    if n.endswith("::apply_state_transition"):
        return ("call", "apply", (cn.c(ev.args[1]),))
    if n.endswith("Log::append"):
        pl = field(ev.args[1], "payload")
        ts = field(ev.args[1], "timestamp")
        if pl is not None and opname(ts) == "time":
            return ("call", "record", (cn.c(pl),))
        return ("call", "record", (cn.c(ev.args[1]),))
    if TIMERS.search(n):
        return ("call", short(n), tuple(runs(ctx, a) if a.k in ("clo", "fn") and a.a[0] in ctx.p.bodies else cn.c(a) for a in ev.args))
    b = ctx.p.bodies.get(n) or ctx.p.bodies.get(ev.name)
    if b is not None and opq is not None and opq.search(n):
        if b.get("asyncness") in (None, False) and b["locals"][0]["ty"] == "()":
            return ("call", "run:" + short(n), tuple(cn.c(a) for a in ev.args))
        return None
    if ev.extra == "ro":
        return None
    if ev.places and ev.places[0] is not None and contains(ev.places[0], lambda x: x.k == "g"):
        op = short(n.replace("op:", ""))
        return ("call", "do", (("str", op), cn.c(base_place(ev.places[0]))) + tuple(cn.c(a) for a in ev.args[1:]))
    return None


def runs(ctx, clo):
    """the functions a closure or function handed to the runtime starts, through helpers that only start them"""
    out, seen, work = set(), set(), [clo.a[0]]

    def local(d):
        return [x for x in ctx.cg().get(d, ()) if x in ctx.p.bodies]

    def asy(d):
        return bool(ctx.p.bodies[d].get("asyncness"))

    def inside(d):
        """what the closures within a function call as well"""
        r, todo, done = set(), [d], set()
        while todo:
            y = todo.pop()
            if y in done:
                continue
            done.add(y)
            for x in local(y):
                if "{closure" in x or "{async" in x:
                    todo.append(x)
                else:
                    r.add(x)
        return r
    while work:
        d = work.pop()
        if d in seen:
            continue
        seen.add(d)
        for x in inside(d):
            ys = inside(x)
            if not asy(x) and any(asy(y) for y in ys) or asy(x) and len(ys) == 1 and asy(next(iter(ys))):
                work.append(x)
            else:
                out.add(short(_strip_gen(x)))
    return ("call", "runs", tuple(("str", x) for x in sorted(out)))


def held(ctx, cn, g):
    """a guard that is alive while a call is awaited: what it does when the reply handler traps"""
    if g.k != "agg":
        return None
    if g.a[0] == "scopeguard::ScopeGuard":
        e2 = ctx.run_closure(field(g, "f"), [field(g, "value")])
        out = set()
        for ev in e2.events:
            if ev.kind == "call" and _strip_gen(ev.name).endswith("Log::append"):
                pl = field(ev.args[1], "payload")
                if pl is not None:
                    out.add(("call", "record", (cn.c(pl),)))
        return ("call", "ondrop", tuple(sorted(out, key=repr)))
    return ("call", short(g.a[0]), tuple(cn.c(v) for n, v in g.a[2] if "PhantomData" not in show(v)))


def base_place(t):
    """a place in the state as it was before any change on this path"""
    if t.k in ("mutd", "upd"):
        return base_place(t.a[0])
    if t.k == "fld":
        return mk("fld", base_place(t.a[0]), t.a[1])
    if t.k == "vf":
        return mk("vf", base_place(t.a[0]), *t.a[1:])
    return t


APPLY = r"audit::apply_state_transition$"


def infallible(a):
    """facts that always go one way: the state is initialised, appending to the log and encoding into memory succeed,
    small constants fit every type of number"""
    if a.k == "is" and a.a[0].k == "call" and opname(a.a[0]) == "try_into" and isinstance(kval(a.a[0].a[1][0]), int):
        return 0 <= kval(a.a[0].a[1][0]) < 128
    return a.k == "is" and (base(a.a[0]).k == "g" or (a.a[0].k == "call" and opname(a.a[0]) in ("append", "encode")))


def cut_re(cut):
    return "|".join(r"(^|::)%s$" % x for x in cut) if cut else None


def flow_rows(ctx, d, args=None, erase=(), msgs=False, cut=(), panics=True, lim=6000, drop=None, result=True, only=None, guards=True, **kw):
    """canonical rows of a task or endpoint: condition -> result and the effects on the way, in order (those between two
    suspension points, which happen atomically, as a set)"""
    b = ctx.p.bodies[d]
    kw.setdefault("exact", True)
    kw.setdefault("collapse", False)
    kw.setdefault("join_nonempty", True)
    opaque = cut_re(cut)
    e = ctx.run(d, tag="flow" + (repr(args) if args else ""), args=args, argnames=[str(i) for i in range(b["argc"])], max_disjuncts=lim,
                opaque_re=re.compile("|".join(x for x in (RPC_OPAQUE.pattern, APPLY, opaque) if x)), **kw)
    if e.trunc is not None:
        return None, e
    gathered(e)
    opq = re.compile(opaque) if opaque else None
    bykey = {}
    for ev in e.events:
        bykey.setdefault(ev.key, []).append(ev)
    cn = GCanon(ctx, erase)
    f = (lambda y: y) if msgs else erase_strings
    src = [(s.facts, s.trace, v, s) for s, v in e.rets]
    for bd, fid, hd, s in e.backs:
        if s is not None and not rounds(e, s):
            src.append((s.facts, s.trace, "again", s))
    if panics:
        for ev in e.events:
            if ev.kind == "panic" and not (ev.args and contains(ev.args[0], lambda x: opname(x) == "overflow")) and "overflow" not in ev.name:
                src.append((ev.facts, ev.trace, None, None))
    out = {}
    for facts, trace, v, s in src:
        seq = []
        for k in trace:
            evs = [x for x in bykey.get(k, ()) if x.trace <= trace and k not in x.trace]
            if evs:
                x = max(evs, key=lambda x: len(x.trace))
                seq.append((len(x.trace), k, x))
        seq.sort(key=lambda x: x[:2])
        cn.e, cn.st, cn.memo, cn.replies, cn.marks = e, s, {}, {}, {}
        cnt = {}
        for _, k, x in seq:
            if x.kind == "suspend":
                n = short(_strip_gen(x.name))
                cnt[n] = cnt.get(n, 0) + 1
                cn.marks[k] = "%s#%d" % (n, cnt[n])
                if isinstance(x.result, T):
                    cn.replies[x.result] = cnt[n]
        c = GCond(cn)
        bad = False
        for a, x in facts.items():
            if infallible(a):
                bad |= x in ("None", "Err") or x in (frozenset(["Some"]), frozenset(["Ok"]))
                continue
            if drop is not None and drop(a, x) or a in e.gath_next:
                continue
            c.add(a, x)
        if c.bad or bad:
            continue
        steps, cur = [], []
        for _, k, x in seq:
            ef = effect_of(ctx, cn, e, x, opq)
            if ef is None or (only is not None and not only.search(ef[1])):
                continue
            ef = normal(ef, lengths(cn, e))
            if not steps and idle(ef, c):
                continue
            ef = f(ef)
            if x.kind == "suspend":
                steps += sorted(set(cur), key=repr) + [ef]
                cur = []
            else:
                cur.append(ef)
        if v is None:       # a trap undoes everything since the last suspension
            cur = []
        steps += sorted(set(cur), key=repr)
        if v is None:
            cv = ("panic",)
        elif isinstance(v, str):
            chg = []
            for k in e.loopphis:
                for l, ph in e.loopphis[k].items():
                    new = s.mem.get(("L", k[0], l))
                    if new is not None and new is not ph:
                        chg.append(("agg", "()", (("0", cn.c(ph)), ("1", cn.c(e.snap(s, new))))))
            cv = ("call", v, tuple(sorted(set(chg), key=repr)))
        else:
            cv = f(normal(cn.c(e.snap(s, v)), lengths(cn, e))) if result else ("call", "end", ())
        r = Row()
        r.cond, r.value, r.mem, r.atoms, r.facts = c, ("call", "flow", (cv,) + tuple(steps)), {}, tuple(c.atoms), facts
        out.setdefault((dump_cond(c), r.value), r)
    tested = set()
    for r in out.values():
        for a in r.atoms:
            subterms(a, tested)
    tested = {t for t in tested if t[:1] == ("phi",)}
    for r in out.values():              # of what a loop carries over, what its outcome depends on
        fl = r.value[2]
        if fl[0][:2] == ("call", "again"):
            r.value = ("call", "flow", (("call", "again", tuple(x for x in fl[0][2] if x[2][0][1] in tested)),) + fl[1:])
    return list({(dump_cond(r.cond), r.value): r for r in out.values()}.values()), e


def record(rows):
    return [{"cond": dump_cond(r.cond), "atoms": sorted(set(r.atoms), key=repr), "value": r.value, "mem": sorted(r.mem.items())} for r in rows]


def show_rows(rows):
    out = []
    for r in sorted(rows, key=lambda r: (repr(r.value), repr(dump_cond(r.cond)))):
        cs = pc(dump_cond(r.cond))
        out.append("  when %s\n    -> %s%s" % ("\n   and ".join(cs) or "always", pp(r.value),
                                               "".join("\n    ; arg%s := %s" % (k, pp(v)) for k, v in sorted(r.mem.items()))))
    return "\n".join(out)


# ------------------------------------------------------------------------------------------------ comparison


def diff_flow(x, y, out):
    """results, then effects aligned by what they do"""
    if x[0] != y[0]:
        diff(x[0], y[0], out)
    xs, ys = [z for z in x[1:] if z not in y[1:]], [z for z in y[1:] if z not in x[1:]]
    if not xs and not ys and x[1:] != y[1:]:
        out.append((("order",), ("order",)))
    for z in xs:
        m = next((w for w in ys if w[:2] == z[:2]), None)
        if m is not None:
            ys.remove(m)
            diff(z, m, out)
        else:
            out.append((z, ("nothing",)))
    for w in ys:
        out.append((("nothing",), w))
    return out


def arm_atoms(arms):
    return {k for c, _ in arms for k, *_ in c[0]} | {k for c, _ in arms for k, _ in c[1]}


def diff_arms(xs, ys, out):
    """results by cases, on both sides by the same or fewer tests: the differing results; False if not comparable"""
    if len(xs) * len(ys) > 3000:
        return False
    p, q = arm_atoms(xs), arm_atoms(ys)
    if not (p <= q or q <= p):
        return False
    X = [(load_cond(None, c, ()), v) for c, v in xs]
    Y = [(load_cond(None, c, ()), v) for c, v in ys]
    hit, pairs = set(), []
    for cy, w in Y:
        found = False
        for i, (cx, v) in enumerate(X):
            if cy.both(cx):
                found = True
                hit.add(i)
                m = merged(cx, cy)
                v1, w1 = simp(v, m), simp(w, m)
                if v1 != w1:
                    diff(v1, w1, pairs)
        if not found:
            return False
    if len(hit) != len(X):
        return False
    for z in pairs:
        if z not in out:
            out.append(z)
    return True


def spelt(x, y):
    """x, a record with some fields set, as the record of all its fields that y is"""
    if x[:1] == ("upd",) and y[:1] == ("agg",) and len(y[2]) > 1 and all(u[0][:1] == ("f",) and len(u[0]) == 2 for u in x[2]):
        us = {u[0][1]: u[1] for u in x[2]}
        names = [n for n, _ in y[2]]
        if set(us) <= set(names) and not any(str(n).isdigit() for n in names):
            return ("agg", y[1], tuple((n, us.get(n, ("fld", x[1], n))) for n in names))
    return x


def aligned(x, y):
    if x == y or not (isinstance(x, tuple) and isinstance(y, tuple) and x and y):
        return x, y
    x, y = spelt(x, y), spelt(y, x)
    if len(x) != len(y):
        return x, y
    ps = [aligned(a, b) for a, b in zip(x, y)]
    return tuple(p[0] for p in ps), tuple(p[1] for p in ps)


def diff(a, b, out):
    """minimal differing subterm pairs"""
    if a == b or a == ("any",):
        return out
    if not (isinstance(a, tuple) and isinstance(b, tuple) and a and b and len(a) == len(b)):
        out.append((a, b))
        return out
    if isinstance(a[0], tuple) and isinstance(b[0], tuple):         # plain sequences of terms
        for x, y in zip(a, b):
            diff(x, y, out)
        return out
    if a[0] == "lin" == b[0] and a[2] == b[2]:
        xs, ys = [x for x in a[1] if x not in b[1]], [y for y in b[1] if y not in a[1]]
        if len(xs) == 1 == len(ys) and xs[0][1] == ys[0][1]:
            return diff(xs[0][0], ys[0][0], out)
    if a[0] != b[0] or a[0] == "lin":
        out.append((a, b))
        return out
    if a[:2] == ("call", "flow") == b[:2]:
        return diff_flow(a[2], b[2], out)
    if a[0] == "coll" and a[:-1] == b[:-1] and unlike(a[-1], b[-1]) or a[0] == b[0] and isinstance(a[0], str) and shortened(a, b):
        out.append((a, b))          # other elements are selected
        return out
    if a[0] in ("coll", "case") and a[:-1] == b[:-1] and diff_arms(a[-1], b[-1], out):
        return out
    if any(x != y for x, y in zip(a, b) if not (isinstance(x, tuple) and isinstance(y, tuple))):
        out.append((a, b))
        return out
    for x, y in zip(a[1:], b[1:]):
        if isinstance(x, tuple):
            if len(x) != len(y):
                out.append((a, b))
                return out
            diff(x, y, out)
    return out


def subterms(x, out):
    if isinstance(x, tuple) and x not in out:
        out.add(x)
        for y in x:
            if isinstance(y, tuple):
                subterms(y, out)
    return out


def head(x):
    if isinstance(x, tuple) and x:
        if x[0] == "call":
            return x[1]
        if x[0] == "mutd":
            return x[2]
        if x[0] in ("vf", "fld", "is", "isv", "not", "slice") and len(x) > 1:
            return head(x[1])
        return x[0]
    return ""


#: collection operators that select a definite part: one is not a way of writing another
PRECISE = set("first last take skip rev min_of max_of max_by_key min_by_key push_front pop pop_front pop_back sum_of sort_by_key".split())


def kept_in(x):
    """the collection of the state an entry is read from"""
    while isinstance(x, tuple):
        if x[0] in ("vf", "elem") or x[:1] == ("call",) and x[1] in ("get", "get_alt", "mget", "iter") and x[2]:
            x = x[2][0] if x[0] == "call" else x[1]
        else:
            return x if x[0] == "fld" else None


def otherpick(a, b):
    """on one side an element found by what it is, on the other the one at an end of an entry of the same collection"""
    while a[0] == b[0] == "fld" and a[2] == b[2]:
        a, b = a[1], b[1]
    tails = []
    for x in (a, b):
        while x[0] == "fld":
            x = x[1]
        tails.append(x)
    for x, y in (tails, tails[::-1]):
        if x[0] == "elem" and y[0] == "vf" and y[1][:1] == ("call",) and y[1][1] in ("first", "last"):
            p, q = kept_in(x[1]), kept_in(y[1][2][0])
            if p and p == q:
                return True
    return False


def precise(a, b):
    """the difference between the two cannot be one of form only"""
    if otherpick(a, b):
        return True
    x, y = head(a), head(b)
    if partial(a, b) or partial(b, a):
        return True
    if loses(a, b) or loses(b, a):
        return True
    if a[:2] == ("call", "again") == b[:2]:         # what one side carries over the other leaves as it was
        p, q = ({z[2][0][1] for z in w[2]} for w in (a, b))
        return p < q or q < p
    if x in PRECISE and y in PRECISE or x in SERVICES and y in SERVICES and x != y:
        return True
    return a[:2] == ("agg", "[]") == b[:2] and len(a[2]) != len(b[2])


def partial(a, b):
    """b is only a part of a"""
    if not (isinstance(a, tuple) and isinstance(b, tuple)):
        return False
    if b[:1] == ("call",) and b[1] in ("take", "skip", "step_by") and len(b[2]) == 2 and b[2][0] == a:
        n = b[2][1]
        if b[1] == "step_by":
            return n != ("int", 1)
        return 0 < n[1] < 1 << 31 if n[0] == "int" else not (inputs([n]) & inputs([a])) and not equivocal(n)
    if b[:1] == ("slice",) and len(b) == 4 and b[1] == a:
        hi = b[3]
        return b[2][:1] == ("int",) and b[2][1] > 0 or hi[:1] == ("int",) or hi[:2] == ("call", "min") and any(z[0] == "int" for z in hi[2])
    if shortened(a, b):
        return True
    x, y = selection(a), selection(b)
    return bool(x and y) and x[0] == y[0] and unlike(x[1], y[1])


def loses(a, b):
    """b keeps less of the inputs than a: only the low bits, or nothing"""
    if isinstance(b, tuple) and len(b) == 3 and b[0] == "call" and b[1].startswith("truncate_") and b[2] == (a,):
        return True
    if closed(b) and bool(inputs([a])) and not equivocal(a):
        return True
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == 2 == len(b) and isinstance(a[0], str) and a[0] == b[0]:
        return loses(a[1], b[1])        # a field and its value
    if isinstance(a, tuple) and isinstance(b, tuple) and a and len(a) == len(b) and a[:1] in (("call",), ("agg",)) and a[:2] == b[:2]:
        ds = [(x, y) for x, y in zip(a[2], b[2]) if x != y] if len(a) == 3 and isinstance(a[2], tuple) and isinstance(b[2], tuple) and len(a[2]) == len(b[2]) else []
        return bool(ds) and all(loses(x, y) for x, y in ds)
    return False


def closed(x):
    """a term other than a plain constant that no input reaches"""
    def ok(y):
        if not isinstance(y, tuple) or not y:
            return True
        if isinstance(y[0], str):
            if y[0] in ("int", "str", "bytes", "bool", "duration", "fn"):
                return True
            if y[0] == "call":
                return bool(y[2]) and all(map(ok, y[2]))
            if y[0] == "agg":
                return all(ok(z) for z in y[2])
            return False
        return all(map(ok, y))
    return isinstance(x, tuple) and x[:1] == ("call",) and ok(x)


TRUE = ((), ())


def selection(x):
    """the collection selected from and the cases selected"""
    if x[:2] == ("call", "seq"):
        return x[2][0], ((TRUE, x[2][1]),)
    if x[:1] == ("coll",):
        return x[1], x[2]


def plain(x):
    """made of inputs and elements only"""
    return not isinstance(x, tuple) or not x or not isinstance(x[0], str) or x[0] in ("fld", "vf", "elem", "p", "g", "is", "int", "lin", "cmp") or x[:2] in (
        ("call", "iter"),) and all(map(plain, x[1:]))


def equivocal(x, seen=()):
    """a collection operator occurs in x (outside subterms that occur on the other side too)"""
    if isinstance(x, tuple):
        if x in seen:
            return False
        if x and x[0] == "call" and len(x) == 3 and x[1] in EQUIVOCAL:
            return True
        if x and x[0] == "mutd" and len(x) == 4 and x[2] in EQUIVOCAL:
            return True
        if x and x[0] in ("elem", "phi", "lam", "coll", "case", "idx"):
            return True
        return any(equivocal(y, seen) for y in x)
    return False


def leaves(x, out):
    """the inputs a term is computed from"""
    if isinstance(x, tuple) and x:
        y = x
        while isinstance(y, tuple) and len(y) > 1 and y[0] in ("fld", "vf") and isinstance(y[1], tuple):
            y = y[1]
        if y[0] == "p" and str(y[1])[:1] == "x":       # argument of a closure
            return out
        if x[0] in ("fld", "vf", "p", "g") and y[0] in ("p", "g"):
            if x[0] == "vf":
                return leaves(x[1], out) if x[1][0] != "g" else out
            out.add(x)
            return out
        for z in x:
            leaves(z, out)
    return out


def inputs(xs):
    out = set()
    for x in xs:
        leaves(x, out)
    return out


def computed(x):
    return x[0] in ("lin", "slice") or x[0] == "call" and not x[1].startswith(("await:", "run:", "flow"))


def loops_on(v):
    if v[:2] == ("call", "flow"):
        v = v[2][0]
    return v[:2] == ("call", "again")


def finals(vs):
    """effects on the paths that leave the function; None if anything is waited for in it"""
    out = set()
    for v in vs:
        t = set()
        subterms(v, t)
        if any(x[0] == "call" and isinstance(x[1], str) and x[1].startswith("await:") for x in t if isinstance(x, tuple) and len(x) > 1):
            return None
        if v[:2] == ("call", "flow") and not loops_on(v):
            out.update(v[2][1:])
    return out


def prefixes(x):
    while isinstance(x, tuple) and x[0] == "fld":
        yield x
        x = x[1]
    yield x


def hides(x):
    return isinstance(x, tuple) and (x[:2] in (("phi", "?"),) or (x[:1] == ("?",)) or any(hides(y) for y in x))


UNIT_OK = ("agg", "Ok", (("0", ("agg", "()", ())),))


def units(a, b):
    """there is only one value of the unit type"""
    for x, y in ((a, b), (b, a)):
        if x == UNIT_OK and y[:2] == ("agg", "Ok") and y[2][0][1][:1] == ("vf",):
            return x, x
    return a, b


def idle(ef, c):
    """inserting what is there, removing what is not"""
    return ef[:2] == ("call", "do") and len(ef[2]) == 3 and c.lit.get(("call", "contains", ef[2][1:])) is {"insert": True, "remove": False}.get(ef[2][0][1], 0)


def simp(x, c):
    """simplify min/max/saturating_sub under a condition"""
    if not isinstance(x, tuple):
        return x
    if x[:1] == ("call",):
        v = c.lit.get(("is", x))
        if v is None:
            v = next((w for k, w in c.lit.items() if k[0] == "is" and k[1][:2] == x[:2] and normal(k[1]) == x), None)
        if v in ("Ok", "Err"):          # returned as it is, or taken apart and put together again
            return ("agg", v, (("0", ("vf", tuple(simp(y, c) for y in x), "0" if v == "Ok" else (v, "0"))),))
    if x[:1] == ("vf",) and x[1][:1] == ("call",):
        return ("vf", tuple(simp(y, c) for y in x[1])) + x[2:]
    x = tuple(simp(y, c) for y in x)
    if x[:2] == ("call", "flow"):
        n = next((i for i, y in enumerate(x[2]) if y[0] == "call" and y[1].startswith("await:")), len(x[2]))
        return ("call", "flow", tuple(y for i, y in enumerate(x[2]) if i >= n or not idle(y, c)))
    if x and x[0] == "call" and x[1] in ("saturating_sub", "min", "max") and len(x[2]) == 2:
        a, b = x[2]
        r = entails_le(c, b, a)
        r2 = entails_le(c, a, b)
        if x[1] == "saturating_sub":
            if r2:
                return ("int", 0)
            if r:
                return sub_c(a, b)
        elif r or r2:
            lo, hi = (b, a) if r else (a, b)
            return lo if x[1] == "min" else hi
    return x


def lin_c(x):
    if x[0] == "int":
        return {}, x[1]
    if x[0] == "lin":
        return dict(x[1]), x[2]
    return {x: 1}, 0


def mk_lin(f, c):
    f = {a: n for a, n in f.items() if n}
    if not f:
        return ("int", c)
    if c == 0 and list(f.values()) == [1]:
        return list(f)[0]
    return ("lin", tuple(sorted(f.items(), key=repr)), c)


def sub_c(a, b):
    (f, c), (g, d) = lin_c(a), lin_c(b)
    f = dict(f)
    for k, n in g.items():
        f[k] = f.get(k, 0) - n
    return mk_lin(f, c - d)


def entails_le(c, a, b):
    """the condition implies a <= b"""
    d = sub_c(a, b)             # d <= 0 ?
    f, k = lin_c(d)
    if not f:
        return k <= 0
    items = tuple(sorted(f.items(), key=repr))
    neg = items[0][1] < 0
    key = tuple((x, -n if neg else n) for x, n in items)
    if key not in c.lin:
        return False
    lo, hi, _ = c.lin[key]
    if neg:
        return lo is not None and lo >= k
    return hi is not None and hi <= -k


def equalities(c):
    """terms known to be equal under the condition: the larger one -> the smaller one"""
    out = {}

    def put(a, b, k=0):
        a, b = subst(a, out), subst(b, out)
        if a == b or len(repr(a)) > 4000:
            return
        if (len(repr(a)), repr(a)) < (len(repr(b)), repr(b)):
            a, b, k = b, a, -k
        if a[0] in ("int", "str", "bool", "lin"):
            return
        v = b if k == 0 else mk_lin({b: 1}, k) if b[0] != "int" else ("int", b[1] + k)
        for x in list(out):
            out[x] = subst(out[x], {a: v})
        out[a] = v
    for key, (lo, hi, ex) in c.lin.items():
        if lo is not None and lo == hi and len(key) == 2 and sorted(n for _, n in key) == [-1, 1]:
            (a, n), (b, _) = key
            put(a, b, lo * n)
        elif len(key) == 2 and sorted(n for _, n in key) == [-1, 1]:
            # one is known to be the larger of the two
            a, b = [t for t, n in key if n == 1][0], [t for t, n in key if n == -1][0]
            if hi is not None and hi <= 0:
                a, b = b, a
            elif lo is None or lo < 0:
                continue
            for x, y in ((a, b), (b, a)):
                put(("call", "max", (x, y)), a)
                put(("call", "min", (x, y)), b)
    for key, v in c.lit.items():
        if v is True and isinstance(key, tuple) and key[:2] == ("call", "eq") and len(key[2]) == 2:
            put(*key[2])
    return out


def rewritten(c, eqs):
    """the condition with equal terms replaced"""
    m = GCond(c.cn)
    for k, (lo, hi, ex) in c.lin.items():
        f, k0 = {}, 0
        for a, n in k:
            g, d = lin_c(subst(a, eqs))
            for b, j in g.items():
                f[b] = f.get(b, 0) + n * j
            k0 += n * d
        f = {a: n for a, n in f.items() if n}
        if lo is not None:
            m._bound({a: -n for a, n in f.items()}, lo - k0, "le")
        if hi is not None:
            m._bound(f, k0 - hi, "le")
        for x in ex:
            m._bound(f, k0 - x, "ne")
    for k, v in c.lit.items():
        k = subst(k, eqs)
        if k[:2] == ("call", "eq") and k[2][0] == k[2][1]:
            m.bad |= v is False
            continue
        old = m.lit.get(k)
        if old is None or old == v:
            m.lit[k] = v
        elif isinstance(v, frozenset) or isinstance(old, frozenset):
            if isinstance(v, frozenset) and isinstance(old, frozenset):
                m.lit[k] = v | old
            else:
                a, b = (v, old) if isinstance(old, frozenset) else (old, v)
                m.bad |= a in b
                m.lit[k] = a
        else:
            m.bad = True
    return m


def merged(c, o):
    m = GCond(c.cn)
    for x in (c, o):
        for k, (lo, hi, ex) in x.lin.items():
            b = m.lin.setdefault(k, [None, None, set()])
            if lo is not None:
                b[0] = lo if b[0] is None else max(b[0], lo)
            if hi is not None:
                b[1] = hi if b[1] is None else min(b[1], hi)
            b[2] |= ex
        for k, v in x.lit.items():
            m.lit.setdefault(k, v)
    return m


def overlap(c, o):
    if not c.both(o):
        return False
    eqs = equalities(merged(c, o))
    return not eqs or rewritten(c, eqs).both(rewritten(o, eqs))


def atom_key(a):
    """comparisons are tested on the same quantity whatever their direction or constant"""
    if isinstance(a, tuple) and a and a[0] == "cmp":
        (f, c), (g, d) = lin_c(a[1]), lin_c(a[2])
        f = dict(f)
        for k, n in g.items():
            f[k] = f.get(k, 0) - n
        items = tuple(sorted(((k, n) for k, n in f.items() if n), key=repr))
        if items and items[0][1] < 0:
            items = tuple((k, -n) for k, n in items)
        return ("cmp", items)
    return a


#: operators of which one is not a way of writing another on the same operands
DISTINCT = ("first last", "min max", "take skip", "from_be_bytes from_le_bytes to_be_bytes to_le_bytes", "min_of max_of", "min_by_key max_by_key", "and or", "pop_front pop_back", "any all", "anonymous management_canister")
DISTINCT = {o: set(g.split()) for g in DISTINCT for o in g.split()}


STRIP = set("trim trim_start trim_end to_lowercase to_uppercase to_ascii_lowercase to_ascii_uppercase".split())


def same_shape(a, b):
    """equal but for the arguments and fields used"""
    if a == b:
        return True
    if not (isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and a):
        return False
    if a[0] == b[0] and a[0] in ("p", "fld") and len(a) > 1:
        return a[0] == "p" or same_shape(a[1], b[1])
    return all(same_shape(x, y) for x, y in zip(a, b))


def selects(arms, pt):
    for (lin, lit), _ in arms:
        ok = True
        for k, lo, hi, ex in lin:
            x = pt[k]
            ok &= (lo is None or x >= lo) and (hi is None or x <= hi) and x not in ex
        for k, v in lit:
            x = pt[k]
            ok &= x not in v[1:] if isinstance(v, tuple) and v and v[0] == "fs" else x == v
        if ok:
            return True
    return False


def deep_plain(x):
    if isinstance(x, tuple) and x[:2] == ("call", "get") and len(x) == 3 and len(x[2]) == 2:
        return all(map(deep_plain, x[2]))
    return not isinstance(x, tuple) or x[:1] == ("elem",) or plain(x) and all(map(deep_plain, x))


def fields(x):
    """the parts of elements a term is computed from"""
    out = set()
    if isinstance(x, tuple):
        if x[:1] == ("fld",):
            return {x}
        for y in x:
            out |= fields(y)
    return out


def unlike(xs, ys):
    """arms testing the same quantities that do not select the same elements"""
    import itertools
    arms = xs + ys
    p, q = arm_atoms(xs), arm_atoms(ys)
    if p != q:
        if not all(map(deep_plain, p ^ q)) or any(inputs([x]) == inputs([y]) and fields(x) == fields(y) for x in p - q for y in q - p):
            return False
    dom = {}
    for (lin, lit), _ in arms:
        for k, lo, hi, ex in lin:
            d = dom.setdefault(k, set())
            for v in (lo, hi) + tuple(ex):
                if v is not None:
                    d |= {v - 1, v, v + 1}
        for k, v in lit:
            d = dom.setdefault(k, set())
            if isinstance(v, tuple) and v and v[0] == "fs":
                d |= set(v[1:]) | {"another"}
            elif isinstance(v, bool):
                d |= {True, False}
            else:
                d |= {v, "another"}
    lins = [frozenset(t for t, _ in k) for (lin, _), _ in arms for k, *_ in lin]
    if any(len(p & q) > 1 and p != q for p, q in itertools.combinations(set(lins), 2)):
        return False
    n = 1
    for d in dom.values():
        n *= len(d)
    if not 0 < n <= 20000:
        return False
    ks = list(dom)
    for vs in itertools.product(*(dom[k] for k in ks)):
        pt = dict(zip(ks, vs))
        if selects(xs, pt) != selects(ys, pt):
            return True
    return False


PART = ("take", "skip", "step_by")


def whole(x):
    """a term with parts of collections replaced by the whole collections"""
    if not isinstance(x, tuple):
        return x
    if x[:1] == ("call",) and x[1] in PART and len(x[2]) == 2 and x[2][1][:1] == ("int",):
        return whole(x[2][0])
    if x[:1] == ("coll",) and any(mentions_part(y) for y in (x[1],)):
        src, arms = whole(x[1]), x[2]
        eqs = {("elem", x[1]): ("elem", src)}
        c0 = None
        if src[0] == "coll" and len(src[2]) == 1:
            c0, w = load_cond(None, src[2][0][0], ()), src[2][0][1]
            eqs = {("elem", x[1]): w}
            if w[0] == "agg":
                eqs.update({("fld", ("elem", x[1]), f[0]): f[1] for f in w[2] if isinstance(f, tuple) and len(f) == 2})
            src = src[1]
        out = []
        for c, v in arms:
            m = rewritten(load_cond(None, c, ()), eqs)
            out.append((dump_cond(merged(c0, m) if c0 else m), subst(v, eqs)))
        out = fewer(out)
        if len(out) == 1 and out[0][0] == ((), ()):
            return ("call", "seq", (src, out[0][1]))
        return ("coll", src, tuple(sorted(out, key=repr)))
    y = tuple(whole(z) for z in x)
    if y != x and y[:2] == ("call", "len") and len(y[2]) == 1:
        return counted(y[2][0])
    return y


def shortened(a, b):
    """b is a except that it looks at a fixed part of the collections only"""
    return bool(b) and b[0] in ("call", "coll") and b != a and mentions_part(b) and not mentions_part(a) and whole(b) == a


def first_only(x):
    """the only parts of collections looked at are first elements, a fixed number of them"""
    return mentions_part(x) and not mentions_call(x, PART[1:])


def mentions_call(x, names):
    return isinstance(x, tuple) and (x[:1] == ("call",) and len(x) == 3 and x[1] in names or any(mentions_call(z, names) for z in x))


def mentions_part(x):
    return isinstance(x, tuple) and (x[:1] == ("call",) and len(x) == 3 and x[1] in PART and len(x[2]) == 2 and x[2][1][:1] == ("int",) or any(mentions_part(z) for z in x))


def otherfield(a, b):
    """another field of the same case of the same value"""
    return a[0] == b[0] == "vf" and a[1] == b[1] and isinstance(a[2], tuple) and isinstance(b[2], tuple) and a[2][0] == b[2][0] and a[2] != b[2]


def definite(a, b):
    """two terms of which one replaces the other with a different meaning: the terms to exchange, or None"""
    if a == b:
        return []
    if not (isinstance(a, tuple) and isinstance(b, tuple)):
        return None
    if a[:1] == ("call",) and a[1] in ("take", "skip", "step_by") and len(a[2]) == 2 and a[2][0] == b and a[2][1][0] == "int":
        return [(a, b)]
    if any(len(y) == 3 and y[:1] == ("call",) and str(y[1]).startswith("truncate_") and y[2] == (x,) for x, y in ((a, b), (b, a))):
        return [(a, b)]
    if b[:1] == ("call",) and b[1] in STRIP and b[2] == (a,) or a[:1] == ("call",) and a[1] in STRIP and a[2] == (b,):
        return [(a, b)]
    if not (a and b and len(a) == len(b)):
        return None
    if not isinstance(a[0], tuple) and a[0] != b[0]:
        return None
    if a[0] == "call" and len(a) == 3 and isinstance(a[2], tuple) and len(a[2]) == len(b[2]):
        if a[1] != b[1]:
            if a[1] in SERVICES and b[1] in SERVICES and a[2] and a[2][0] == b[2][0]:
                return [(a, b)]
            return [(a, b)] if a[2] == b[2] and b[1] in DISTINCT.get(a[1], ()) else None
        if all(x == y or x[0] == y[0] == "int" for x, y in zip(a[2], b[2])):
            return [(a, b)]
    if a[0] == "coll" and a[1] == b[1] and len(a[2]) == 1 == len(b[2]) and not load_cond(None, a[2][0][0], ()).both(load_cond(None, b[2][0][0], ())):
        return [(a, b)]         # the elements selected were left out, and vice versa
    if a[0] == "coll" and a[1] == b[1] and unlike(a[2], b[2]):
        return [(a, b)]
    if a[0] == "slice" and a[1] == b[1] and all(x == y or x[0] == y[0] == "int" for x, y in zip(a[2:], b[2:])):
        return [(a, b)]
    if a[0] == "lam" and same_shape(a, b):
        return [(a, b)]
    if a[0] in ("fld",) and len(inputs([a])) == 1 == len(inputs([b])) and a[1] == b[1]:
        return [(a, b)]
    if otherfield(a, b):
        return [(a, b)]
    if shortened(b, a):
        return [(a, b)]         # only a part is looked at
    out = []
    for x, y in zip(a, b):
        if x != y:
            ds = definite(x, y)
            if ds is None:
                return None
            out += ds
    return out


def replaced(ctx, inst, rows, gold, gatoms, gone):
    """the function is the recorded one except that one term was exchanged for a definitely different one: that exchange"""
    new = {}
    for r in rows:
        for a in r.atoms:
            if atom_key(a) not in gatoms:
                new.setdefault(atom_key(a), a)
    gone = list(gone)
    if not new or not gone or len(new) != len(gone) or len(new) > 12:
        return None
    sub = {}
    for k in new:
        for g in gone:
            d = definite(k, g)
            if d:
                break
        else:
            return None
        gone.remove(g)
        for a, b in d:
            if sub.setdefault(a, b) != b:
                return None
    if not sub:
        return None
    vals = set()
    for r in rows:
        for x in (r.value,) + tuple(r.mem.values()):
            subterms(x, vals)
    if not all(a in vals or a[0] == "coll" or otherfield(a, b) or first_only(a) and whole(a) == b or (b[0] == "call" and b[1] in STRIP) or (a[0] == "call" and (a[1] in STRIP or not a[2] or a[1].startswith("truncate_") and a[2] == (b,))) for a, b in sub.items()):
        return None             # only tested: it may be another way to test the same
    out = []
    for r in rows:
        q = Row()
        q.cond, q.facts = rewritten(r.cond, sub), r.facts
        q.atoms = tuple(subst(a, sub) for a in r.atoms)
        q.value, q.mem = subst(r.value, sub), {k: subst(x, sub) for k, x in r.mem.items()}
        out.append(q)
    return (sub, out)


def flipped(sub, rows):
    """the same rows with every test whether there is such an element reversed"""
    ks = {((("call", "len", (b,)), 1),) for a, b in sub.items() if b[0] == "coll" and a[0] == "coll"}
    if len(ks) != len(sub):
        return None
    out = []
    for r in rows:
        q = Row()
        q.cond = load_cond(r.cond.cn, dump_cond(r.cond), r.atoms)
        for k in ks:
            b = q.cond.lin.get(k)
            if b is None:
                continue
            if b[0] in (0, None) and b[1] == 0:
                q.cond.lin[k] = [1, None, set()]
            elif b[0] == 1 and b[1] is None:
                q.cond.lin[k] = [0, 0, set()]
            else:
                return None
        q.facts, q.atoms, q.value, q.mem = r.facts, r.atoms, r.value, r.mem
        out.append(q)
    return out


class _Quiet:
    """a context that only counts"""

    def __init__(self, ctx):
        self.p, self.inconclusive, self.bad, self.good = ctx.p, [], 0, 0
        self._c = ctx

    def ob(self, rule, lab, ok, *a):
        self.good += bool(ok)
        self.bad += not ok

    def __getattr__(self, n):
        return getattr(self._c, n)


def compare(ctx, rule, inst, rows, gold, span, extra=(), exchange=True, failmem=True):
    """gold: recorded rows (JSON)"""
    cn = GCanon(ctx)
    S = []
    for g in gold:
        S.append((load_cond(cn, g["cond"], g["atoms"]), g["value"], dict(g["mem"])))
    known = set(extra) | UPDATES | EFFECTS | SERVICES | {"await:" + x for x in SERVICES} | {"run:" + x for x in SERVICES}
    gatoms = set()
    for c, v, m in S:
        gatoms.update(atom_key(a) for a in c.atoms)
        ops_of(v, known)
        for a in c.atoms:
            ops_of(a, known)
        for x in m.values():
            ops_of(x, known)
    for x in list(known):
        known |= set(DISTINCT.get(x, ()))
    seen, rterms, gterms = set(), set(), set()
    for r in rows:
        seen.update(atom_key(a) for a in r.atoms)
        for x in (r.value,) + tuple(r.mem.values()) + tuple(r.atoms):
            subterms(x, rterms)
    for c, v, m in S:
        for x in (v,) + tuple(m.values()) + tuple(c.atoms):
            subterms(x, gterms)
    rleaves = {y for x in inputs(rterms) for y in prefixes(x)}
    gone = gatoms - seen
    if exchange and gone:
        x = replaced(ctx, inst, rows, gold, gatoms, gone)
        if x is not None:
            q = _Quiet(ctx)
            compare(q, rule, inst, x[1], gold, span, extra, False, failmem)
            if not (q.good and not q.bad and not q.inconclusive):
                y = flipped(x[0], x[1])         # any for all
                if y is not None:
                    q = _Quiet(ctx)
                    compare(q, rule, inst, y, gold, span, extra, False, failmem)
            if q.good and not q.bad and not q.inconclusive:
                for i, (a, b) in enumerate(x[0].items()):
                    ctx.ob(rule, "%s#x%d" % (inst, i), False, "%s: %s instead of %s throughout, otherwise as recorded" % (inst, pp(a)[:200], pp(b)[:200]), span)
                return len(rows)
    used = set()
    n = 0
    last = None
    for r in rows:
        n += 1
        lab = "%s#%d" % (inst, n)
        hits, miss = [], []
        for i, (sc, sv, sm) in enumerate(S):
            if not r.cond.both(sc):
                continue
            mc = merged(r.cond, sc)
            ss = dict(r.cond.subst())
            ss.update(sc.subst())
            ss.update(mc.subst())
            eqs = equalities(mc)
            if eqs and not rewritten(r.cond, eqs).both(rewritten(sc, eqs)):
                continue

            def same(x, y):
                if matches(x, y):
                    return True
                x, y = aligned(x, y)
                if matches(x, y) or matches(*units(simp(subst(x, ss), mc), simp(subst(y, ss), mc))):
                    return True
                return bool(eqs) and matches(simp(subst(subst(x, ss), eqs), mc), simp(subst(subst(y, ss), eqs), mc))
            ds = []
            if not same(sv, r.value):
                ds.append((sv, r.value))
            for k in set(sm) | set(r.mem):
                if not failmem and ("agg", "Err") in (sv[:2], r.value[:2]):
                    continue            # what a failing call leaves behind is undone by the trap that follows
                if k not in sm or k not in r.mem:
                    ds.append((sm.get(k, ("p", k)), r.mem.get(k, ("p", k))))
                elif not same(sm[k], r.mem[k]):
                    ds.append((sm[k], r.mem[k]))
            if not ds:
                hits.append(sc)
                used.add(i)
            else:
                miss.append((ds, sv, sm, sc))
        # a recorded table that itself allows two outcomes here (some element, among others) allows either
        miss = [x[:3] for x in miss if not any(overlap(h, x[3]) and r.cond.both(merged(h, x[3])) for h in hits)]
        if hits:
            ctx.ob(rule, lab, True)
        if not hits and not miss:
            ctx.inconclusive.append("%s %s: path matches no recorded row (%s)" % (rule, lab, pp(r.value)[:100]))
            continue
        if not miss:
            continue
        new = {atom_key(a) for a in r.atoms} - gatoms
        nbad = set()
        for a in new:
            vocab(a, known, nbad)
        cond_unknown = bool(new) and bool(gone) and (
            bool(nbad) or any(equivocal(a, gterms) for a in new) or any(equivocal(a, rterms) for a in gone))
        ninp = inputs(new)
        worst = None
        for ds, sv, sm in miss:
            pairs = []
            for a, b in ds:
                diff(*aligned(a, b), pairs)
            if not pairs:
                continue            # the same, written with more or fewer cases
            vbad = set()
            for a, b in pairs:
                if not partial(a, b) and not loses(a, b):
                    vocab(b, known, vbad)
            rewr = any((equivocal(a, rterms) or equivocal(b, gterms)) and not precise(a, b) for a, b in pairs)
            if rewr and not new and loops_on(sv) != loops_on(r.value):
                rewr, vbad = False, set()       # the same element ends the loop on one side only
            if rewr and not vbad and any((inputs([a]) - rleaves) and not hides(b) for a, b in pairs):
                rewr = False        # the value no longer depends on an input it must depend on
            if not rewr and not vbad and loops_on(sv) and loops_on(r.value) and all(("nothing",) in q for q in pairs):
                # before the loop on one side, after it on the other
                if last is None:
                    fs = finals([x[1] for x in S]), finals([x.value for x in rows])
                    last = fs[0] & fs[1] if None not in fs else set()
                rewr = all((b if a == ("nothing",) else a) in last for a, b in pairs)
            if nbad and not vbad and pairs and all(computed(a) and inputs([a]) <= ninp for a, _ in pairs):
                rewr = True         # computed another way, by cases on the same input
            if vbad or rewr or cond_unknown:
                msg = "no verdict (%s)" % sorted(vbad or nbad or {"rewritten"})[:3]
            elif hits and new and not gone and nbad:
                msg = None      # an additional condition of unknown meaning that changes the result
            else:
                msg = None
            cond = " and ".join("%s=%s" % (show(a)[:90], x if not isinstance(x, frozenset) else "not " + "/".join(map(str, x)))
                                for a, x in r.facts.items())
            what = "%s instead of %s, yielding %s under [%s]" % (
                "; ".join(pp(q)[:220] for _, q in pairs[:3]), "; ".join(pp(q)[:220] for q, _ in pairs[:3]), pp(r.value)[:120], cond[:700])
            if msg is None:
                worst = what
                break
            if worst is None:
                worst = (msg, what)
        if isinstance(worst, tuple):
            ctx.inconclusive.append("%s %s: %s: %s" % (rule, lab, worst[0], worst[1][:300]))
        elif worst is not None:
            ctx.ob(rule, lab, False, "%s: %s" % (inst, worst), span)
    # a recorded outcome that no path can produce any more
    for i, (sc, sv, sm) in enumerate(S):
        if i in used:
            continue
        if rows and not any(r.cond.both(sc) for r in rows):
            ctx.inconclusive.append("%s %s: no path for recorded row %s" % (rule, inst, pp(sv)[:80]))
    return n


def pack(tables):
    """JSON form with shared subterms"""
    nodes, idx = [], {}

    def rec(x):
        if isinstance(x, (tuple, list)):
            y = [rec(z) for z in x]
            k = json.dumps(y)
            if k not in idx:
                idx[k] = len(nodes)
                nodes.append(y)
            return {"r": idx[k]}
        return x
    return {"tables": {n: [{k: rec(v) for k, v in r.items()} for r in rows] for n, rows in sorted(tables.items())}, "nodes": nodes}


def unpack(j):
    nodes = []

    def get(x):
        return nodes[x["r"]] if isinstance(x, dict) else x
    for n in j["nodes"]:
        nodes.append(tuple(get(x) for x in n))
    return {n: [{k: get(v) for k, v in r.items()} for r in rows] for n, rows in j["tables"].items()}


def table_file(pid):
    return os.path.join(TABLES, pid + ".json")


def load(pid):
    with open(table_file(pid)) as f:
        return unpack(json.load(f))


def find(ctx, key):
    """`fn@name` picks the function; `name[Variant]` a call with that enum variant as last argument"""
    return ctx.fn(key) or next(iter(sorted(d for d in ctx.p.bodies if key in d)), None)


def event_arg(ctx, adt, variant):
    """a generic value of an enum variant, its fields named"""
    a = ctx.p.adts[adt]
    for v in a["variants"]:
        if v["n"] == variant:
            return agg(adt, variant, tuple((f["n"], mk("p", "e.%s" % f["n"])) for f in v["fields"]))
    return None


def option_arg(ctx, adt, given):
    """a structure of optional fields, of which the given ones (or all, or none) are present"""
    a = ctx.p.adts.get(adt)
    if a is None or given not in ("all", "none") and given not in [f["n"] for f in a["variants"][0]["fields"]]:
        return None
    return agg(adt, a["variants"][0]["n"], tuple((f["n"], some(mk("p", "e.%s" % f["n"])) if given in ("all", f["n"]) else NONE) for f in a["variants"][0]["fields"]))


def extract(ctx, d, args, o):
    o = dict(o)
    return (flow_rows if o.pop("flow", False) else rows_of)(ctx, d, args=args, **o)


def check_golden(ctx, rule, entries, pid=None):
    """entries: [(name, options)] compared with analysis/tables/<pid>.json"""
    gold = load(pid or ctx.pid)
    for name, opts in entries:
        o = dict(opts)
        d, args, asy = resolve_entry(ctx, name, o)
        if d is None:
            if name.partition("[")[0] in ("apply_state_transition",):
                ctx.need(False, rule, name, "function not found")
            else:
                ctx.inconclusive.append("%s: %s not found" % (rule, name))
            continue
        extra = o.pop("extra", ())
        gone = [x for x in o.get("cut", ()) if "\\" not in x and ctx.fn(x) is None]
        if gone:
            ctx.inconclusive.append("%s %s: %s not found" % (rule, name, ", ".join(gone)))
            continue
        rows, e = extract(ctx, d, args, o)
        if rows is None:
            ctx.inconclusive.append("%s %s: %s" % (rule, name, e.trunc))
            continue
        if name not in gold:
            raise SystemExit("no recorded table for " + name)
        compare(ctx, rule, name, rows, gold[name], ctx.p.bodies[d]["span"], extra, failmem=o.get("failmem", True))


def resolve_entry(ctx, name, o):
    fn, _, var = name.partition("[")
    d = find(ctx, fn)
    args = None
    asy = None
    if d is not None and var:
        var = var.rstrip("]")
        b = ctx.p.bodies[d]
        adt = o.pop("enum")
        ai = o.pop("argi", b["argc"] - 1)
        ev = option_arg(ctx, adt, var) if o.pop("options", False) else event_arg(ctx, adt, var)
        if ev is None:
            return None, None, None
        byref = b["locals"][ai + 1]["ty"].startswith("&")
        args = [None if i != ai else mk("ref", ("T", ev), ()) if byref else ev for i in range(b["argc"])]
    else:
        o.pop("enum", None)
        o.pop("argi", None)
        o.pop("options", None)
    return d, args, asy
