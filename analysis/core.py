"""Shared machinery of the property rules: fact access, term patterns, call graph, reporting."""
import json
import os
import re
import sys
import time

import engine
from engine import (Config, Engine, Program, St, T, Truncated, agg, kint, mk, short, show, _strip_gen, NONE, TRUE, FALSE)
import facts as factbase

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = "evm_minter::"
STATE = "evm_minter::state::STATE"

#: the RPC layer is analysed on its own; elsewhere its methods are opaque
RPC_OPAQUE = re.compile(r"^evm_minter::rpc_client::RpcClient::(?!from_state|chain|provider)|rpc_client::Reduce>?::reduce$|rpc_client::ReducedResult::<\w+>::\w+$")


class Inconclusive(Exception):
    pass


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        F, self.info = factbase.facts()
        self.F = F
        self.p = Program(F)
        self.tainted = [f for f in self.p.failed if f.get("why") == "tainted"]
        self.violations = []
        self.obligations = {}
        self.notes = []
        self.inconclusive = []
        self.blind = None       # rules about values the engine does not follow here
        self._runs = {}
        self._cg = None
        self.entered = set()
        self.sites = set()

    # ------------------------------------------------------------------ reporting
    def ob(self, rule, instance, okay, msg="", span=None):
        """one proof obligation: rule at an instance"""
        self.obligations.setdefault(rule, {})
        cur = self.obligations[rule].get(instance)
        self.obligations[rule][instance] = bool(okay) if cur is None else (cur and bool(okay))
        if not okay and self.blind and self.blind.search(rule):
            self.inconclusive.append("%s %s: depends on an array filled through references to its elements" % (rule, instance))
        elif not okay:
            self.viol(rule, instance, msg, span)
        return okay

    def viol(self, rule, instance, msg, span=None):
        key = "%s|%s" % (rule, instance)
        if key not in [v["key"] for v in self.violations]:
            self.violations.append({"key": key, "rule": rule, "instance": instance, "message": msg, "where": span or ""})

    def floor(self, rule, n, what):
        """fail closed when an anchored construct disappeared (unless the code did not type-check)"""
        have = len(self.obligations.get(rule, {}))
        if have < n:
            if self.tainted:
                self.inconclusive.append("%s: %s: %d < %d, but %d bodies do not type-check" % (
                    rule, what, have, n, len(self.tainted)))
            else:
                self.viol(rule, "floor", "%s: found %d instances, confirmed at least %d on the reference tree" % (what, have, n))

    def need(self, cond, rule, instance, msg):
        """a required anchor is present"""
        if cond:
            return True
        if self.tainted:
            self.inconclusive.append("%s %s: %s" % (rule, instance, msg))
        else:
            self.viol(rule, instance, msg)
        return False

    # ------------------------------------------------------------------ running the dataflow engine
    def fn(self, *suffixes):
        """the unique function whose path ends with one of the suffixes (None if absent)"""
        for s in suffixes:
            c = [d for d in self.p.bodies if d == s or d.endswith("::" + s)]
            if len(c) > 1:
                c2 = [d for d in c if "::{" not in d]
                c = c2 or c
            if c:
                return sorted(c, key=len)[0]
        return None

    def export(self, name):
        """implementation function of a canister endpoint (follows the exported symbol's wrapper)"""
        for d, b in self.p.bodies.items():
            if (b.get("export") or "").split(".")[-1] == name or b.get("export") == name or \
                    (b.get("export") or "").split(" ")[-1] == name:
                return d
        return None

    def run(self, d, asy=None, args=None, argnames=None, opaque_re=RPC_OPAQUE, tag="", soft=False, **kw):
        key = (d, tag, opaque_re.pattern if opaque_re else None, tuple(sorted((k, str(v)) for k, v in kw.items())))
        if key in self._runs:
            return self._runs[key]
        b = self.p.bodies.get(d)
        e = Engine(self.p, Config(opaque_re=opaque_re, **kw))
        if asy is None:
            asy = b.get("asyncness") not in (None, False)
        r = []
        e.trunc = None
        try:
            r = (e.run_async if asy else e.run)(d, args, **({"argnames": argnames} if argnames else {}))
        except Truncated as x:
            e.trunc = str(x)
            self.notes.append("analysis of %s truncated: %s" % (d, x))
            self.inconclusive.append("truncated: %s" % x)
        self.entered |= e.entered
        for ev in e.events:
            self.sites.add((ev.kind, ev.name, ev.span))
        e.rets = r
        self._runs[key] = e
        return e

    def table(self, d, **kw):
        """decision table of a small pure function: [(path condition, result, final state)] with every path kept apart"""
        e = self.run(d, tag="exact", exact=True, collapse=False, max_disjuncts=3000, **kw)
        return e, [(s.facts, v, s) for s, v in e.rets]

    def run_closure(self, clo, args):
        """effects of calling a closure value on given arguments"""
        e = Engine(self.p, Config(opaque_re=RPC_OPAQUE))
        e.trunc = None
        try:
            e.rets = e.call_value(St(), clo, list(args), (0, "clo"), None)
        except Truncated as x:
            e.trunc, e.rets = str(x), []
            self.inconclusive.append("truncated: %s" % x)
        self.entered |= e.entered
        return e

    # ------------------------------------------------------------------ call graph
    def cg(self):
        if self._cg is not None:
            return self._cg
        out = {}
        for d, b in self.p.bodies.items():
            s = out.setdefault(d, set())
            for bl in b["blocks"]:
                if not bl:
                    continue
                _edges(bl, s)
        # trait methods of unresolved calls: all local implementations
        byname = {}
        for (t, n), bs in self.p.trait_impls.items():
            for x in bs:
                byname.setdefault(t + "::" + str(n), []).append(x["def"])
        for d, s in out.items():
            for c in list(s):
                if c in byname:
                    s.update(byname[c])
        self._cg = out
        return out

    def entries(self):
        """functions the outside world can start: exports (closures they arm are reached through them)"""
        return [d for d, b in self.p.bodies.items() if b.get("export")]

    def reach(self, starts, cut=()):
        cg = self.cg()
        seen = set()
        work = [s for s in starts if s not in cut]
        while work:
            x = work.pop()
            if x in seen:
                continue
            seen.add(x)
            for y in cg.get(x, ()):
                if y not in seen and y not in cut:
                    work.append(y)
        return seen

    def callers(self, pred):
        """[(caller def, block, terminator)] of calls whose callee name satisfies pred"""
        out = []
        for d, b in self.p.bodies.items():
            for i, bl in enumerate(b["blocks"]):
                if not bl or bl["te"]["t"] != "call":
                    continue
                f = bl["te"]["f"].get("k", {}).get("fn")
                if not f:
                    continue
                n = (f.get("res") or {}).get("def", f["def"])
                if pred(n) or pred(f["def"]):
                    out.append((d, i, bl["te"]))
        return out


def _edges(x, s):
    if isinstance(x, dict):
        if "fn" in x and isinstance(x["fn"], dict) and "def" in x["fn"]:
            f = x["fn"]
            s.add(f["def"])
            for k in ("res", "via"):
                if f.get(k):
                    s.add(f[k]["def"])
        if x.get("agg") in ("closure", "coroutine"):
            s.add(x["def"])
        for v in x.values():
            if isinstance(v, (dict, list)):
                _edges(v, s)
    elif isinstance(x, list):
        for y in x:
            if isinstance(y, (dict, list)):
                _edges(y, s)


# ---------------------------------------------------------------------------------- term patterns


def is_state(t):
    """the minter's state (at any point in time)"""
    if t.k == "vf" and t.a[1] == "Some":
        g = t.a[0]
        while g.k in ("upd", "mutd"):
            g = g.a[0]
        return g.k == "g" and g.a[0] == STATE
    if t.k == "upd":
        return is_state(t.a[0])
    return False


def path_of(t):
    """(root, [field names...]) through field/variant projections"""
    p = []
    while t.k in ("fld", "vf"):
        if t.k == "fld":
            p.append(t.a[1])
        else:
            p.append("%s.%s" % (t.a[1], t.a[2]))
        t = t.a[0]
        if is_state(t):
            break
    return t, p[::-1]


def state_path(t):
    """'a.b' if t is a field path of the state, else None (ignoring later in-place updates)"""
    t = base(t)
    r, p = path_of(t)
    if is_state(r) and p:
        return ".".join(p)
    return None


def base(t):
    while t.k in ("mutd", "upd"):
        t = t.a[0]
    return t


def state_epoch(t):
    """epoch (suspension interval) in which a state-rooted term was read"""
    for x in walk(t):
        if x.k == "g" and x.a[0] == STATE:
            return x.a[1]
    return None


def walk(t, seen=None):
    seen = seen if seen is not None else set()
    if not isinstance(t, T) or t in seen:
        return
    seen.add(t)
    yield t
    for x in t.a:
        yield from _walk_any(x, seen)


def _walk_any(x, seen):
    if isinstance(x, T):
        yield from walk(x, seen)
    elif isinstance(x, tuple):
        for y in x:
            yield from _walk_any(y, seen)


def contains(t, pred):
    return any(pred(x) for x in walk(t))


def arms(t, facts=None, e=None):
    """alternatives of a conditional value consistent with facts -> [(facts, value)]"""
    out = []

    def rec(t, fs):
        if t.k == "case":
            for f, v in t.a[0]:
                d = dict(fs)
                bad = False
                for a, x in f:
                    if a in d and not engine._compat(d[a], x):
                        bad = True
                        break
                    d[a] = x
                if not bad:
                    rec(v, d)
        else:
            out.append((fs, t))
    rec(t, dict(facts or {}))
    return out


def field(t, name):
    """field of a struct term (None if not a struct)"""
    if t.k == "agg":
        for n, v in t.a[2]:
            if n == name:
                return v
        return None
    if t.k == "upd":
        for el, v in t.a[1]:
            if el[0] == "f" and el[1] == name:
                return v
        return field(t.a[0], name)
    if t.k == "case":
        return None
    return mk("fld", t, name)


def variant(t):
    return t.a[1] if t.k == "agg" else None


def is_agg(t, name):
    return t.k == "agg" and (t.a[0] == name or t.a[0].endswith("::" + name))


def is_call(t, *names):
    return t.k == "call" and any(t.a[0] == n or t.a[0] == "op:" + n or t.a[0].endswith("::" + n) for n in names)


def fact_variant(facts, t):
    """known variant of t according to facts"""
    if t.k == "agg":
        return t.a[1]
    return facts.get(mk("is", t))


def resolve(e, t, facts):
    s = St({}, dict(facts))
    return e.snap(s, t)


def bool_fact(e, facts, t):
    return e.bool_known(St({}, dict(facts)), t)


# ---------------------------------------------------------------------------------- driver


def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == pid]


def finish(ctx, level, technique, assumptions, explain):
    known = {k["key"]: k for k in known_findings(ctx.pid)}
    viols = [v for v in ctx.violations if v["key"] not in known]
    hits = [v for v in ctx.violations if v["key"] in known]
    nob = sum(len(x) for x in ctx.obligations.values())
    good = sum(1 for x in ctx.obligations.values() for v in x.values() if v)
    ev = {
        "property": ctx.pid, "tier": ctx.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level,
        "coverage": {
            "explanation": explain,
            "technique": technique,
            "bodies_type_checked": len(ctx.p.bodies),
            "bodies_not_type_checked": len(ctx.tainted),
            "files": len(ctx.p.files),
            "functions_entered_by_dataflow": len(ctx.entered),
            "effect_sites_seen": len(ctx.sites),
            "obligations": nob,
            "obligations_discharged": good,
            "rules": {r: {"instances": len(x), "holding": sum(1 for v in x.values() if v),
                          "examples": sorted(x)[:12]} for r, x in sorted(ctx.obligations.items())},
            "functions": sorted(ctx.entered)[:80],
            "known_findings_matched": [v["key"] for v in hits],
            "inconclusive": ctx.inconclusive[:20],
            "notes": ctx.notes[:20],
        },
        "assumptions": assumptions,
        "wall_s": round(time.time() - ctx.t0, 2),
        "violations": len(viols),
    }
    evd = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
    os.makedirs(evd, exist_ok=True)
    with open(os.path.join(evd, ctx.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for v in hits:
        print("KNOWN-FINDING: property=%s %s" % (ctx.pid, known[v["key"]]["what"]))
    print("%s: %d bodies, %d functions entered, %d obligations (%d hold), %d inconclusive, %.1fs" % (
        ctx.pid, len(ctx.p.bodies), len(ctx.entered), nob, good, len(ctx.inconclusive), time.time() - ctx.t0))
    for n in ctx.inconclusive[:10]:
        print("  inconclusive: " + n[:300])
    if viols:
        rp = os.path.join(evd, ctx.pid + ".violations.txt")
        with open(rp, "w") as f:
            for v in viols:
                f.write("rule     %s\ninstance %s\nwhere    %s\n%s\n\n" % (v["rule"], v["instance"], v["where"], v["message"]))
        for v in viols:
            print("  [%s] %s @ %s: %s" % (v["rule"], v["instance"], v["where"], v["message"][:600]))
        print("VIOLATION property=%s replay=%s" % (ctx.pid, rp))
        return 1
    return 0
