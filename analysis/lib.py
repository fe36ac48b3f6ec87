"""Queries shared by the rule modules."""
import re

from core import *
from core import _strip_gen

ATYPES = {
    "evm_minter::state::State": "",
    "evm_minter::state::transactions::WithdrawalTransactions": "withdrawal_transactions.",
    "evm_minter::state::NativeBalance": "native_balance.",
    "evm_minter::state::Erc20Balances": "erc20_balances.",
}
#: fields of the state that are not part of the replayed history
TRANSIENT = {
    "ecdsa_public_key", "last_observed_block_number", "last_observed_block_time", "active_tasks",
    "pending_withdrawal_principals", "last_transaction_price_estimate", "last_scraped_block_number",
}


def _bare(t):
    t = re.sub(r"&(?:'\w+ )?(?:mut )?", "", t).strip()
    return t


def state_fields(ctx):
    out = {}
    for ty, pre in ATYPES.items():
        a = ctx.p.adts.get(ty)
        if a:
            for f in a["variants"][0]["fields"]:
                out.setdefault(f["n"], set()).add(ty)
    return out


def writers(ctx):
    """{function: {(struct type, field)}} of mutable accesses (assignment or &mut borrow) to fields of the state structs"""
    fields = state_fields(ctx)
    out = {}

    def look(d, b, place):
        ty = _bare(b["locals"][place[0]]["ty"])
        known = ty in ATYPES
        unk = "closure" in ty or "coroutine" in ty or "{" in ty
        cur = ty if known else None
        for el in place[1:]:
            if isinstance(el, dict) and "n" in el and "f" in el:
                n = el["n"]
                tys = fields.get(n, set())
                if cur is not None:
                    if cur in tys:
                        out.setdefault(d, set()).add((cur, n))
                        nxt = [t for t, pre in ATYPES.items() if pre == n + "."]
                        cur = nxt[0] if nxt else "?"
                    continue
                if unk and tys:
                    for t in tys:
                        out.setdefault(d, set()).add((t, n))
                    cur = "?"
    for d, b in ctx.p.bodies.items():
        if b.get("derived"):
            continue
        for bl in b["blocks"]:
            if not bl:
                continue
            for s in bl["st"]:
                if "p" in s:
                    look(d, b, s["p"])
                    r = s["r"]
                    if r.get("ref") and r.get("k") == "m":
                        look(d, b, r["ref"])
            te = bl["te"]
            if te["t"] == "call":
                look(d, b, te["dest"])
    return out


def is_var(facts, t, v):
    """facts establish that t has variant v"""
    if t.k == "agg":
        return t.a[1] == v
    f = facts.get(mk("is", t))
    if f == v:
        return True
    if isinstance(f, frozenset):
        for opts in (("Some", "None"), ("Ok", "Err")):
            if v in opts and f == frozenset(o for o in opts if o != v):
                return True
    return False


def mget(m, k):
    return mk("call", "op:get", (m, k))


def mcontains(m, k):
    return mk("call", "op:contains", (m, k))


def _find_calls(facts, names, m, k):
    for t, v in facts.items():
        x = t.a[0] if t.k == "is" else t
        if x.k == "call" and short(x.a[0].replace("op:", "")) in names and len(x.a[1]) >= 2 and x.a[1][0] is m and x.a[1][1] is k:
            yield t, x, v


def absent(facts, m, k):
    """facts establish that key k is not in map/set m"""
    for t, x, v in _find_calls(facts, ("get", "contains", "contains_key", "contains_alt", "get_alt", "get_mut", "remove", "get_entry", "mget"), m, k):
        if t.k == "is":
            if is_var(facts, x, "None"):
                return True
        elif v is False:
            return True
    return False


def present(facts, m, k):
    for t, x, v in _find_calls(facts, ("get", "contains", "contains_key", "contains_alt", "get_alt", "get_mut", "remove", "get_entry", "mget"), m, k):
        if t.k == "is":
            if is_var(facts, x, "Some"):
                return True
        elif v is True:
            return True
    return False


def unroll(t):
    """(base, [(op, args)...]) of a chain of in-place mutations"""
    ops = []
    while t.k == "mutd":
        ops.append((short(t.a[1].replace("op:", "")), t.a[2]))
        t = t.a[0]
    return t, ops[::-1]


def at(t, path):
    for n in path.split("."):
        t = field(t, n)
        if t is None:
            return None
    return t


class Tr:
    """one path of the transition function: event variant, payload, conditions, resulting state"""

    def __init__(self, var, P, S, final, facts, e):
        self.var, self.P, self.S, self.final, self.facts, self.e = var, P, S, final, facts, e

    def pay(self, *names):
        """payload field of the variant"""
        t = mk("vf", self.P, self.var, names[0])
        for n in names[1:]:
            t = mk("fld", t, n)
        return t

    def ops(self, path):
        b, o = unroll(at(self.final, path))
        return o

    def pre(self, path):
        t = self.S
        for n in path.split("."):
            t = mk("fld", t, n)
        return t

    def changed(self):
        """paths of state fields that differ from the initial state"""
        out = set()

        def rec(t, pre):
            if t.k == "upd":
                for el, v in t.a[1]:
                    n = ".".join(pre + [str(el[1])])
                    if v.k == "upd":
                        rec(v, pre + [str(el[1])])
                    else:
                        out.add(n)
                rec(t.a[0], pre)
        rec(self.final, [])
        return out


def transitions(ctx, fnname="audit::apply_state_transition"):
    d = ctx.fn(fnname)
    if d is None:
        return None
    e = ctx.run(d, opaque_re=None)
    out = []
    for s, v in e.rets:
        S = P = None
        final = None
        for k, x in s.mem.items():
            if k[0] == "T" and k[1].k == "p" and k[1].a[0] == "state":
                S, final = k[1], x
        P = mk("p", "payload")
        for pn in list(s.facts):
            if pn.k == "is" and pn.a[0].k == "p":
                P = pn.a[0]
        var = s.facts.get(mk("is", P))
        if S is None:
            b = ctx.p.bodies[d]
            S = mk("p", b["locals"][1]["n"])
            final = S
        out.append(Tr(var, P, S, final, s.facts, e))
    return out


# ---------------------------------------------------------------------------------- tasks and effects


def spawned(ctx):
    """async functions handed to the canister executor -> [spawning bodies]"""
    out = {}
    for d, b in ctx.p.bodies.items():
        calls = [bl["te"] for bl in b["blocks"] if bl and bl["te"]["t"] == "call"]
        for te in calls:
            f = te["f"].get("k", {}).get("fn")
            if f and short((f.get("res") or f)["def"]) == "spawn":
                a = te["args"][0]
                l = a.get("m") or a.get("c")
                for te2 in calls:
                    if l and te2["dest"] == [l[0]]:
                        g = te2["f"].get("k", {}).get("fn")
                        if g:
                            out.setdefault((g.get("res") or g)["def"], []).append(d)
    return out


def task(ctx, variant, name):
    """the timer task that runs under TaskType::<variant>"""
    d = ctx.fn(name)
    if d:
        return d
    c = []
    for f in spawned(ctx):
        for b in ctx.p.bodies:
            if (b == f or b.startswith(f + "::{")) and any(
                    x.get("r", {}).get("adt", "").endswith("TaskType") and x["r"].get("variant") == variant
                    for bl in ctx.p.bodies[b]["blocks"] if bl for x in bl["st"] if "r" in x):
                c.append(f)
    return sorted(set(c))[0] if c else None


def appends(e):
    """[(event, payload term)] of appends to the persistent event log"""
    out = []
    for ev in e.events:
        if ev.kind == "call" and ev.name.endswith("Log::append") or (ev.kind == "call" and short(ev.name) == "append" and
                                                                     "stable" in ev.name):
            if len(ev.args) > 1:
                for fs, v in arms(ev.args[1], ev.facts):
                    pl = field(v, "payload")
                    if pl is None:
                        continue
                    for fs2, p2 in arms(pl, fs):
                        out.append((ev, p2, fs2))
    return out


LEDGER = re.compile(r"ICRC1Client.*::(transfer|transfer_from)$")


def ledger_awaits(e, what="transfer"):
    """[(event, ledger id term, argument struct term)] where a ledger call is awaited"""
    out = []
    for ev in e.events:
        if ev.kind == "suspend" and LEDGER.search(_strip_gen(ev.name)) and ev.name.endswith("::" + what):
            out.append((ev, field(ev.args[0], "ledger_canister_id"), ev.args[1]))
    return out


def elem_root(t, pred):
    """first 'elem' subterm whose source satisfies pred"""
    for x in walk(t):
        if x.k == "elem" and pred(x.a[0]):
            return x
    return None


def guard_types(ev):
    return [show(a) for a in ev.alive]


def keyloc(ev):
    """function (without line) an event is in: stable instance names"""
    return ev.stack[-1] if ev.stack else ""
