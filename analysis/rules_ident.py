"""Identity of values: what the other rules take for granted about ==, ordering and clone().

The other rules read `a == b` as "the same value", a map key as "that value" and `x.clone()` as x.
For compiler-derived implementations this is so by construction; a hand-written one is analysed here:
equality and ordering must depend on every field, equality must hold of a value and itself, and a clone
must carry every field over.  A field that an implementation never looks at is reported."""
import re
import golden
from golden import pp, rewritten, subterms

D = r"evm_minter::deposit_logs::"
T = r"evm_minter::state::transactions::"
R = r"evm_minter::rpc_declrations::"
X = r"evm_minter::tx::"

IDENT = {
    "C01": [(D + "EventSource", "cmp eq")],
    "C02": [(D + "ReceivedDepositEvent", "clone"), (D + "ReceivedNativeEvent", "clone"), (D + "ReceivedErc20Event", "clone"), (D + "LedgerSubaccount", "clone")],
    "C03": [(D + "EventSource", "cmp")],
    "C04": [("evm_minter::numeric::range::BlockRangeInclusive", "clone"), (R + "Topic", "clone"), (R + "GetLogsParam", "clone")],
    "C06": [("evm_minter::state::event::EventType", "clone")],
    "C08": [(T + "NativeWithdrawalRequest", "clone"), (T + "Erc20WithdrawalRequest", "clone"), (T + "Subaccount", "clone")],
    "C10": [(T + "ReimbursementIndex", "cmp clone"), (T + "ReimbursementRequest", "clone"), (T + "Reimbursed", "clone")],
    "C11": [(T + "WithdrawalRequest", "eq clone"), (T + "NativeWithdrawalRequest", "eq clone"), (T + "Erc20WithdrawalRequest", "eq clone"),
            (X + "Eip1559TransactionRequest", "eq clone"), (X + "SignedEip1559TransactionRequest", "clone"), (X + "InnerSignedTransactionRequest", "clone"),
            (X + "Resubmittable<T>", "clone")],
    "C12": [(R + "TransactionReceipt", "clone"), (R + "TransactionStatus", "eq clone"), (R + "Hash", "eq cmp clone")],
    "C13": [(X + "GasFeeEstimate", "clone"), (X + "TransactionPrice", "clone"), (X + "ResubmissionStrategy", "clone")],
    "C14": [(R + x, "eq clone") for x in ("TransactionReceipt", "LogEntry", "Block", "SendRawTransactionResult", "Data", "FixedSizeData", "Hash", "TransactionStatus")] + [(R + "FeeHistory", "clone")],
    "C16": [("evm_minter::state::TaskType", "eq clone")],
    "C17": [(r"evm_minter::checked_amount::CheckedAmountOf<Unit>", "eq cmp clone")],
    "C18": [(X + "Eip1559TransactionRequest", "clone"), (X + "AccessList", "clone"), (X + "Eip1559Signature", "clone")],
    "C19": [("evm_minter::erc20::ERC20Token", "clone"), ("evm_minter::erc20::ERC20TokenSymbol", "eq cmp clone"), ("evm_minter::eth_types::Address", "eq cmp clone")],
    "C20": [("evm_minter::eth_types::Address", "eq clone"), (R + "Hash", "eq clone")],
    "C21": [("evm_minter::evm_config::EvmNetwork", "eq clone")],
    "C26": [("evm_minter::logs::Priority", "clone"), ("evm_minter::logs::LogEntry", "clone"), ("evm_minter::logs::Log", "clone")],
    "C27": [(T + "Subaccount", "eq"), ("evm_minter::eth_types::Address", "eq"), (R + "TransactionStatus", "eq")],
}
TRAIT = {"eq": "core::cmp::PartialEq", "cmp": "core::cmp::Ord", "clone": "core::clone::Clone"}
P0, P1 = ("p", "0"), ("p", "1")


def whole(x, p):
    """p is used as a whole, other than by its fields or kind"""
    if x == p:
        return True
    if not isinstance(x, tuple):
        return False
    if x[0] in ("fld", "vf", "is") and len(x) > 1 and x[1] == p:
        return False
    if x[:2] == ("call", "discriminant_value") and x[2] == (p,):
        return False
    return any(whole(y, p) for y in x)


def atoms(r):
    out = []
    for k, b in r.cond.lin.items():
        out.append(tuple(a for a, _ in k))
    for k, v in r.cond.lit.items():
        out.append(k)
    return tuple(out)


def looks(seen, p, v, f):
    return any(x[0] == "fld" and x[1] == p and x[2] == f or
               x[0] == "vf" and x[1] == p and (x[2] in (f, "*") or isinstance(x[2], tuple) and x[2] == (v, f))
               for x in seen if isinstance(x, tuple) and len(x) == 3)


def kinds(r, p, names):
    """the variants p may have on this row"""
    v = r.cond.lit.get(("is", p))
    if v is None:
        return set(names)
    return set(names) - set(v) if isinstance(v, frozenset) else {v}


def relation(ctx, rule, lab, adt, rows, span, cmp):
    vs = {v["n"]: [f["n"] for f in v["fields"] if not f["ty"].startswith("core::marker::PhantomData") and f["n"] != "memoized_hash"] for v in adt["variants"]}
    enum = adt["kind"] == "Enum"
    for i, r in enumerate(rows):
        at = atoms(r)
        if any(whole(x, p) for x in at + (r.value,) for p in (P0, P1)):
            ctx.inconclusive.append("%s %s#%d: %s" % (rule, lab, i, pp(r.value)[:80]))
            continue
        val = pp(r.value)
        seen = set()
        for x in at + (r.value,):
            subterms(x, seen)
        if val in ("False", "Less", "Greater"):
            known = all(k[0] == "is" and k[1] in (P0, P1) for k in r.cond.lit) and all(
                isinstance(a, tuple) and (a[0] == "fld" and a[1] in (P0, P1) or a[:2] == ("call", "discriminant_value")) for k in r.cond.lin for a, _ in k)
            if known and kinds(r, P0, vs) & kinds(r, P1, vs):
                c = rewritten(r.cond, {P1: P0})
                if not c.bad and all(b[0] is None and b[1] is None and not b[2] for b in c.lin.values()):
                    ctx.ob(rule, lab + ": reflexive", False, "%s of a value and itself is %s" % (lab, val), span)
            continue
        w = r.cond.lit.get(("is", r.value))
        if cmp and (isinstance(w, frozenset) and "Equal" in w or isinstance(w, str) and w != "Equal"):
            continue            # decided by an earlier field
        if enum:
            a, b = kinds(r, P0, vs), kinds(r, P1, vs)
            disc = any(x[:2] == ("call", "discriminant_value") for x in seen if isinstance(x, tuple) and len(x) == 3)
            if not disc and len(vs) > 1 and (len(a) > 1 or a != b):
                if not (a & b) or not any(x[:1] == ("is",) and x[1] == P1 for x in seen if isinstance(x, tuple)) or not any(x[:1] == ("is",) and x[1] == P0 for x in seen if isinstance(x, tuple)):
                    ctx.ob(rule, lab + ": kind", False, "%s does not tell %s from %s" % (lab, "/".join(sorted(a)), "/".join(sorted(b))), span)
                    continue
            if disc and val not in ("True", "Equal") and not (a & b):
                continue
            pos = a & b
        else:
            pos = set(vs)
        miss = [(v, f) for v in sorted(pos) for f in vs[v] if not (looks(seen, P0, v, f) and looks(seen, P1, v, f))]
        if len(pos) > 1 and not enum:
            miss = []
        ctx.ob(rule, lab + (": " + "/".join(sorted(pos)) if enum and len(pos) < 4 else ""), not miss, "%s does not look at %s: values that differ only there count as the same" % (
            lab, ", ".join(f if not enum else v + "." + f for v, f in miss)[:150]), span)


def copy(ctx, rule, lab, adt, rows, span):
    vs = {v["n"]: {f["n"]: f["ty"] for f in v["fields"]} for v in adt["variants"]}
    for i, r in enumerate(rows):
        x = r.value
        if x == P0:
            ctx.ob(rule, lab, True)
            continue
        if x[0] != "agg":
            ctx.inconclusive.append("%s %s#%d: %s" % (rule, lab, i, pp(x)[:80]))
            continue
        name = str(x[1]).split("::")[-1]
        pos = kinds(r, P0, vs) if adt["kind"] == "Enum" else set(vs)
        if name in vs and pos and name not in pos:
            ctx.ob(rule, lab + ": kind", False, "a copy of %s is %s" % ("/".join(sorted(pos)), name), span)
            continue
        for y in x[2]:
            if not (isinstance(y, tuple) and len(y) == 2):
                continue
            f, t = y
            if vs.get(name, {}).get(f, "").startswith("core::marker::PhantomData") or whole(t, P0):
                continue
            seen = set()
            subterms(t, seen)
            ok = looks(seen | {t}, P0, name, f) and t[0] != "lin"
            ctx.ob(rule, lab + ": " + f, ok, "a copy's %s is %s" % (f, pp(t)[:80]), span)


def check(ctx, pid):
    rule = pid + ".identity"
    for name, ops in IDENT.get(pid, ()):
        adt = ctx.p.adts.get(re.sub(r"<.*", "", name))
        for op in ops.split():
            lab = "%s of %s" % ({"eq": "equality", "cmp": "ordering", "clone": "copy"}[op], name.split("::")[-1])
            d = "<%s as %s>::%s" % (name, TRAIT[op], op)
            b = ctx.p.bodies.get(d)
            if adt is None or b is None:
                ctx.inconclusive.append("%s: %s not found" % (rule, lab))
                continue
            if b.get("derived"):
                ctx.ob(rule, lab, True)
                continue
            rows, e = golden.extract(ctx, d, None, {})
            if rows is None:
                ctx.inconclusive.append("%s: %s not analysed" % (rule, lab))
                continue
            (copy(ctx, rule, lab, adt, rows, b["span"]) if op == "clone" else
             relation(ctx, rule, lab, adt, rows, b["span"], op == "cmp"))
