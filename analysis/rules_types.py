"""Value types: amounts, addresses, chain ids, two-key maps, persisted encodings."""
from spec import *

AMT = "evm_minter::checked_amount::CheckedAmountOf::<Unit>::"


def amt_trait(ctx, tr, item):
    for d, b in ctx.p.bodies.items():
        if b.get("item_name") == item and b.get("impl_trait") and "CheckedAmountOf" in d and tr in d:
            return d
    return None


def specs(ctx, rule, table, finder, **kw):
    for n, s in table.items():
        d = finder(n)
        if not ctx.need(d is not None, rule, n, "function %s not found" % n):
            continue
        k = dict(kw)
        if isinstance(s, tuple):
            s, k2 = s
            k.update(k2)
        check_table(ctx, rule, d, s, name=n, **k)


AMOUNT = {
    "ZERO": "-> 0", "ONE": "-> 1", "TWO": "-> 2",
    "MAX": "-> 115792089237316195423570985008687907853269984665640564039457584007913129639935",
    "new": "-> $0", "from_inner": "-> $0", "into_inner": "-> $0", "from_words": "-> from_words($0, $1)",
    "from_str_hex": """is(from_str_hex($0), Ok) -> Ok{from_str_hex($0)?}
                       is(from_str_hex($0), Err) -> Err{_}""",
    "from_be_bytes": "-> from_be_bytes($0)", "to_be_bytes": "-> to_be_bytes($0)",
    "checked_add": """is(checked_add($0, $1), Some) -> Some{add($0, $1)}
                      is(checked_add($0, $1), None) -> None""",
    "checked_sub": """!lt($0, $1) -> Some{sub($0, $1)}
                      lt($0, $1) -> None""",
    "checked_mul": """is(checked_mul($0, $1), Some) -> Some{mul($0, $1)}
                      is(checked_mul($0, $1), None) -> None""",
    "checked_increment": """is(checked_add($0, 1), Some) -> Some{add($0, 1)}
                            is(checked_add($0, 1), None) -> None""",
    "checked_decrement": """lt($0, 1) -> None
                            !lt($0, 1) -> Some{sub($0, 1)}""",
    "checked_div_ceil": """
        eq($1, 0) -> None
        !eq($1, 0) && eq(rem($0, $1), 0) -> Some{div($0, $1)}
        !eq($1, 0) && !eq(rem($0, $1), 0) && is(checked_add(div($0, $1), 1), Some) -> Some{add(div($0, $1), 1)}
        !eq($1, 0) && !eq(rem($0, $1), 0) && is(checked_add(div($0, $1), 1), None) -> None""",
    "checked_div_floor": """eq($1, 0) -> None
                            !eq($1, 0) -> Some{div($0, $1)}""",
    "div_by_two": "-> div($0, 2)",
    "change_units": "-> $0",
    "as_f64": "-> as_f64($0)",
    "to_string_inner": "-> to_string($0)",
}

AMOUNT_TRAITS = {
    ("TryFrom<candid", "try_from"): """
        lt(32, len(to_bytes_be($0))) -> Err{_}
        !lt(32, len(to_bytes_be($0))) -> Ok{from_be_bytes(right_aligned(32, to_bytes_be($0)))}""",
    ("From<evm_rpc_types::Nat256>", "from"): "-> from_be_bytes(to_be_bytes($0))",
    ("for evm_rpc_types::Nat256>", "from"): "-> from_be_bytes(to_be_bytes($0))",
    ("for candid::types::number::Nat>", "from"): "-> from_bytes_be(to_be_bytes($0))",
    ("PartialEq>", "eq"): "-> eq($0, $1)",
    ("cmp::PartialOrd>", "partial_cmp"): "-> Some{cmp($0, $1)}",
    ("cmp::Ord>", "cmp"): "-> cmp($0, $1)",
    ("Clone>", "clone"): "-> $0",
    ("From<u8>", "from"): "-> $0", ("From<u16>", "from"): "-> $0", ("From<u32>", "from"): "-> $0",
    ("From<u64>", "from"): "-> $0", ("From<u128>", "from"): "-> $0",
}


def check_C17(ctx):
    specs(ctx, "C17.arithmetic", AMOUNT, lambda n: AMT + n if AMT + n in ctx.p.bodies else None, erase0=("*",))
    for (tr, item), s in AMOUNT_TRAITS.items():
        d = amt_trait(ctx, tr, item)
        if ctx.need(d is not None, "C17.conversion", tr, "no implementation of %s %s" % (tr, item)):
            check_table(ctx, "C17.conversion", d, s, erase0=("*",), name="%s::%s" % (tr.strip("<> "), item))
    amount_text(ctx)
    import rules_tables
    rules_tables.check_C17(ctx)
    ctx.floor("C17.arithmetic", 20, "amount operations")


def amount_text(ctx):
    """printed amounts show the amount: decimal (digit grouping aside), lower- or upper-case hex as asked"""
    for tr, kind in (("core::fmt::Display>", "display"), ("core::fmt::LowerHex>", "lower_hex"), ("core::fmt::UpperHex>", "upper_hex")):
        d = amt_trait(ctx, tr, "fmt")
        if d is None:
            continue
        e = ctx.run(d, tag="fmt", fmt=True, prim_types=(), exact=True, collapse=False)
        if e.trunc:
            continue
        cn = Canon(ctx, ("*",))
        got = [rename_self(cn.c(x.args[0])) for x in writes(e)]
        if len(got) != 1:
            ctx.inconclusive.append("C17.text %s: %d writes" % (tr, len(got)))
            continue
        x = got[0]
        tpl = None
        if x[:2] == ("call", "fmt") and len(x[2]) == 2 and x[2][0][0] == "str":
            tpl, x = x[2][0][1], x[2][1]
        sp = ctx.p.bodies[d]["span"]
        if tpl is not None and x[0] == "call" and x[1].startswith("fmt:"):
            ctx.ob("C17.text", tr, tpl == "{}" and (x[1] == "fmt:" + kind), "the amount is printed through %s %s" % (tpl.replace(chr(0), ""), x[1]), sp)
            x = x[2][0]
        while x[0] == "call" and x[1].startswith(("separate_", "to_string")):
            x = x[2][0]
        bad = vocab(x, set())
        if bad:
            ctx.inconclusive.append("C17.text %s: %s" % (tr, bad))
            continue
        ctx.ob("C17.text", tr + "/value", x == ("p", "self"), "the amount is printed as %s" % pp(x), sp)


# ------------------------------------------------------------------------------------------------ C20 addresses
ADDR = "evm_minter::eth_types::Address::"


ADDRESS = {
    "ZERO": "-> 0x" + "00" * 20, "new": "-> $0", "into_bytes": "-> $0", "is_native_token": "-> zeros($0)",
}


def addr_trait(ctx, pat, item):
    for d, b in sorted(ctx.p.bodies.items()):
        if "eth_types" in d and b.get("item_name") == item and pat in d and "::{" not in d[d.index(pat):]:
            return d
    return None


def check_C20(ctx):
    E0 = ("*",)
    specs(ctx, "C20.address", ADDRESS, lambda n: ADDR + n if ADDR + n in ctx.p.bodies else None, erase0=E0)
    for pat, item, s in (
            ("AsRef<[u8]>", "as_ref", "-> $0"),
            ("TryFrom<&[u8; 32]>", "try_from", """
                !zeros($0[0..12]) -> Err{_}
                zeros($0[0..12]) -> Ok{$0[12..]}"""),
            ("for [u8; 32]>", "from", "-> right_aligned(32, $0)"),
            ("FromStr>", "from_str", """
                !starts_with($0, '0x') -> Err{_}
                starts_with($0, '0x') && is(decode_to_slice($0[2..], 0x0000000000000000000000000000000000000000), Err) -> Err{_}
                starts_with($0, '0x') && is(decode_to_slice($0[2..], 0x0000000000000000000000000000000000000000), Ok) -> Ok{decoded($0[2..])}"""),
            ("HexStrVisitor", "visit_str", """
                !starts_with($1, '0x') -> Err{_}
                starts_with($1, '0x') && is(from_hex($1[2..]), Ok) -> Ok{from_hex($1[2..])?}
                starts_with($1, '0x') && is(from_hex($1[2..]), Err) -> Err{_}""")):
        d = addr_trait(ctx, pat, item)
        if ctx.need(d is not None, "C20.conversion", pat, "no implementation of %s::%s" % (pat, item)):
            check_table(ctx, "C20.conversion", d, s, erase0=E0, name="%s::%s" % (pat, item), extra=("try_into"))
    d = ctx.fn("serde_data::serialize")
    if ctx.need(d is not None, "C20.conversion", "serialize", "serde_data::serialize not found"):
        check_table(ctx, "C20.conversion", d, "-> serialize_str($1, prefixed('0x', encode_hex($0)))", name="serialize", extra=("serialize_str", "prefixed"))
    eip55(ctx)
    lower_hex(ctx)
    d = ctx.fn("eth_types::keccak")
    if d is not None:
        check_table(ctx, "C20.checksum", d, "-> hash($0)", name="keccak", extra=("hash",))
        te = [bl["te"] for bl in ctx.p.bodies[d]["blocks"] if bl and bl["te"]["t"] == "call"]
        cal = [t["f"].get("k", {}).get("fn", {}).get("def", "") for t in te]
        ctx.ob("C20.checksum", "hash function", not any("Sha" in c or "Keccak" in c for c in cal) or
               any("Keccak256" in c for c in cal), "the checksum is not Keccak-256: %s" % cal, ctx.p.bodies[d]["span"])
    ctx.floor("C20.conversion", 8, "address conversions")


def writes(e):
    return [ev for ev in e.events if ev.kind == "call" and ev.name == "fmt::write"]


def lower_hex(ctx):
    for tr, enc in (("LowerHex>", "encode"), ("UpperHex>", "encode_upper")):
        d = addr_trait(ctx, "core::fmt::" + tr, "fmt")
        if d is None or not ctx.need("Address" in d, "C20.hex", tr, "no implementation of " + tr):
            continue
        e = ctx.run(d, tag="fmt", fmt=True, prim_types=(), exact=True, collapse=False)
        w = writes(e)
        cn = Canon(ctx, ("*",))
        got = tuple(cn.c(x.args[0]) for x in w)
        if len(got) != 1:
            ctx.inconclusive.append("C20.hex %s: %d writes" % (tr, len(got)))
            continue
        want = ("call", "fmt", (("str", "0x\x00{}"), ("call", "fmt:display", (("call", enc, (("p", "self"),)),))))
        bad = vocab(got[0], {"fmt", "fmt:display", "encode", "encode_upper"})
        if bad:
            ctx.inconclusive.append("C20.hex %s: %s" % (tr, bad))
            continue
        ctx.ob("C20.hex", tr, matches(want, rename_self(got[0])), "address is rendered as %s" % pp(got[0]), ctx.p.bodies[d]["span"])


def rename_self(x):
    if not isinstance(x, tuple):
        return x
    if x and x[0] == "p":
        return ("p", "self")
    return tuple(rename_self(y) for y in x)


def eip55(ctx):
    """Display: '0x' then the lowercase hex digits, the i-th in upper case iff the i-th nibble of Keccak-256(hex) is >= 8"""
    d = addr_trait(ctx, "core::fmt::Display>", "fmt")
    if not ctx.need(d is not None, "C20.checksum", "Display", "no Display for Address"):
        return
    sp = ctx.p.bodies[d]["span"]
    e = ctx.run(d, tag="fmt", fmt=True, prim_types=(), exact=True, collapse=False)
    if e.trunc:
        return
    w = writes(e)
    pre = [ev for ev in w if not any(x.k == "elem" for x in walk(ev.args[0]))]
    body = [ev for ev in w if ev not in pre]
    ctx.ob("C20.checksum", "prefix", bool(pre) and all(lit(ev) == "0x" for ev in pre),
           "the printed address does not start with 0x: %s" % [show(ev.args[0])[:60] for ev in pre], sp)
    seen = set()
    for ev in body:
        v = ev.args[0]
        digit, upper = None, None
        for x in walk(v):
            o = opname(x)
            if o in ("to_ascii_uppercase", "to_uppercase"):
                digit, upper = x.a[1][0], True
            if o in ("to_ascii_lowercase", "to_lowercase"):
                digit, upper = x.a[1][0], False
        if digit is None:
            es = [x for x in walk(v) if x.k == "elem"]
            digit, upper = (es[0], False) if len(es) == 1 else (None, None)
        if digit is None or digit.k != "elem" or not contains(digit, lambda x: x.k == "mutd" and short(x.a[1]) == "encode_to_slice" or
                                                              opname(x) in ("encode", "encode_hex")):
            ctx.inconclusive.append("C20.checksum: written digit not understood: %s" % show(v)[:200])
            continue
        # nibble test
        nib = [(a, x) for a, x in ev.facts.items() if opname(a) in ("lt", "le", "gt", "ge") and isinstance(x, bool)]
        if not nib:
            ctx.ob("C20.checksum", "case", False, "the case of a digit does not depend on the checksum", ev.span)
            continue
        for a, x in nib:
            t = [y for y in a.a[1] if kval(y) is None]
            if len(t) != 1 or t[0].k != "elem":
                ctx.inconclusive.append("C20.checksum: test %s" % show(a)[:200])
                continue
            lo, hi, _ = interval({a: x}, t[0])
            seen.add(upper)
            if upper:
                ctx.ob("C20.checksum", "upper", lo == 8 and hi >= 15, "digits are upper-cased for nibbles %s..%s instead of 8..15" % (
                    lo, min(hi, 15)), ev.span)
            else:
                ctx.ob("C20.checksum", "lower", lo == 0 and hi == 7, "digits keep lower case for nibbles %s..%s instead of 0..7" % (
                    lo, min(hi, 15)), ev.span)
            nibbles(ctx, e, t[0].a[0], sp)
    if seen and seen != {True, False}:
        ctx.ob("C20.checksum", "cases", False, "only one letter case is produced", sp)


def lit(ev):
    v = ev.args[0]
    if opname(v) == "fmt" and len(v.a[1]) == 1 and v.a[1][0].k == "k":
        return v.a[1][0].a[1]
    if v.k == "k" and v.a[0] == "str":
        return v.a[1]
    return None


def nibbles(ctx, e, arr, sp):
    """the checksum array holds high nibble then low nibble of each hash byte"""
    cn = Canon(ctx, ("*",))
    if arr.k != "phi":
        return
    for dd, fid, h, s in e.backs:
        v = s.mem.get(("L", arr.a[0], arr.a[2]))
        if v is None or v.k != "upd" or base(v) is not arr:
            continue
        stores = {}
        for el, x in v.a[1]:
            if el[0] == "i":
                stores[cn.c(el[1])] = cn.c(x)
        idx = None
        for k in stores:
            for y in flat(k):
                if isinstance(y, tuple) and y and y[0] == "elem":
                    idx = y
        if idx is None or len(stores) != 2:
            ctx.inconclusive.append("C20.checksum: nibble stores %s" % [pp(k) for k in stores])
            return
        even = ("call", "mul", tuple(sorted((("int", 2), idx), key=repr)))
        odd = ("lin", ((even, 1),), 1)
        if set(stores) != {even, odd}:
            ctx.inconclusive.append("C20.checksum: nibble indices %s" % [pp(k) for k in stores])
            return
        b = [y for y in flat(stores[even]) if isinstance(y, tuple) and y and y[0] in ("vf", "call") and y[1:2] != ("div",) and idx in flat(y)]
        hi, lo = stores[even], stores[odd]
        ok1 = hi[0] == "call" and hi[1] == "div" and hi[2][1] == ("int", 16)
        ok2 = lo[0] == "call" and (lo[1] == "and" and ("int", 15) in lo[2] or lo[1] == "rem" and lo[2][1] == ("int", 16))
        same = ok1 and ok2 and hi[2][0] in lo[2]
        ctx.ob("C20.checksum", "nibbles", same, "checksum nibbles are %s (even digits) and %s (odd digits)" % (pp(hi), pp(lo)), sp)
        full = hi[2][0] if ok1 else hi
        ctx.ob("C20.checksum", "hash of hex digits", not ok1 or any(
            isinstance(y, tuple) and y[:2] == ("call", "hash") and any(
                isinstance(z, tuple) and len(z) > 2 and z[0] == "mutd" and z[2] == "encode_to_slice" for z in flat(y))
            for y in flat(full)), "the checksum is taken over %s" % pp(full), sp)




# ------------------------------------------------------------------------------------------------ C21 networks
#: chain identifiers registered for the networks (EIP-155 registry)
CHAIN = {"Ethereum": 1, "Sepolia": 11155111, "ArbitrumOne": 42161, "BSC": 56, "BSCTestnet": 97, "Polygon": 137, "Optimism": 10,
         "Base": 8453, "Avalanche": 43114, "Fantom": 250}


def check_C21(ctx):
    adt = ctx.p.adts.get("evm_minter::evm_config::EvmNetwork")
    if not ctx.need(adt is not None, "C21.networks", "enum", "network enumeration not found"):
        return
    names = [v["n"] for v in adt["variants"]]
    ctx.ob("C21.networks", "all", set(CHAIN) <= set(names), "network removed: %s" % sorted(set(CHAIN) - set(names)), adt["span"])
    d = ctx.fn("EvmNetwork::chain_id")
    ids = {}
    if ctx.need(d is not None, "C21.chain-id", "fn", "chain_id not found"):
        e, rows = ctx.table(d)
        for facts, v, s in rows:
            var = [x for a, x in facts.items() if a.k == "is" and isinstance(x, str)]
            k = kval(v)
            if k is None or len(facts) != len(var) or not var:
                ctx.inconclusive.append("C21.chain-id: %s" % show(v)[:100])
                continue
            ids.setdefault(var[0], set()).add(k)
        for n, k in ids.items():
            ctx.ob("C21.chain-id", n, k == {CHAIN.get(n, next(iter(k)))}, "the chain id of %s is %s, registered as %s" % (
                n, sorted(k), CHAIN.get(n)), ctx.p.bodies[d]["span"])
        flat_ids = [x for k in ids.values() for x in k]
        ctx.ob("C21.chain-id", "distinct", len(flat_ids) == len(set(flat_ids)), "two networks share a chain id: %s" % ids,
               ctx.p.bodies[d]["span"])
    d = next((x for x in ctx.p.bodies if "EvmNetwork as core::convert::TryFrom<u64>>::try_from" in x), None)
    if ctx.need(d is not None, "C21.inverse", "fn", "no conversion from a chain id"):
        e, rows = ctx.table(d)
        sp = ctx.p.bodies[d]["span"]
        P = mk("p", e_param(ctx, d, 0))
        got = {}
        for facts, v, s in rows:
            lo, hi, ex = interval(facts, P)
            if variant(v) == "Ok":
                net = variant(field(v, "0"))
                if lo != hi:
                    if all(P is x or not contains(a, lambda y: True) for a in facts for x in a.a if isinstance(x, T)):
                        ctx.ob("C21.inverse", str(net), False, "%s is returned for every chain id in %s..%s" % (net, lo, hi), sp)
                    else:
                        ctx.inconclusive.append("C21.inverse: condition of %s" % net)
                    continue
                got[lo] = net
                want = [n for n, k in (ids or {n: {c} for n, c in CHAIN.items()}).items() if lo in k]
                ctx.ob("C21.inverse", str(lo), want == [net], "chain id %s is decoded as %s, encoded by %s" % (lo, net, want), sp)
            elif variant(v) == "Err":
                bad = [c for c in CHAIN.values() if lo <= c <= hi and c not in ex]
                if lo == hi or mentions(facts, P):
                    ctx.ob("C21.inverse", "rejected %s" % (lo if lo == hi else "rest"), not bad, "chain ids %s are rejected" % bad, sp)
            else:
                ctx.inconclusive.append("C21.inverse: result %s" % show(v)[:100])
    # persisted codes
    codes = {}
    for v in adt["variants"]:
        m = [re.search(r"n\((\d+)\)", a) for a in v.get("attrs", [])]
        m = [x for x in m if x]
        if m:
            codes[v["n"]] = int(m[0].group(1))
    for n, c in codes.items():
        ctx.ob("C21.persisted", n, c == CHAIN.get(n, c), "%s is stored as %d, existing records use %s" % (n, c, CHAIN.get(n)), adt["span"])
    ctx.ob("C21.persisted", "distinct", len(set(codes.values())) == len(codes), "two networks share a stored code", adt["span"])
    for tr in ("encode::Encode", "decode::Decode"):
        dd = next((x for x in ctx.p.bodies if "evm_config::EvmNetwork as minicbor::" + tr in x), None)
        if dd is None:
            continue
        e, rows = ctx.table(dd)
        sp = ctx.p.bodies[dd]["span"]
        for facts, v, s in rows:
            if "Encode" in tr:
                var = [x for a, x in facts.items() if a.k == "is" and a.a[0].k == "p" and isinstance(x, str)]
                w = [kval(x.a[2][0]) for k, x in s.mem.items() if k[0] == "T" and x.k == "mutd" and x.a[2]]
                if len(var) == 1 and w and w[0] is not None:
                    ctx.ob("C21.persisted", "encode " + var[0], w == [CHAIN.get(var[0], w[0])], "%s is written as %s" % (var[0], w), sp)
            elif variant(v) == "Ok" and v.a[2] and variant(v.a[2][0][1]):
                net = variant(v.a[2][0][1])
                ks = [(a, x) for a, x in facts.items() if isinstance(x, int) and not isinstance(x, bool)]
                los = [interval(facts, t) for a in facts for t in ([a] + [y for y in (a.a[1] if a.k == "call" else ()) if isinstance(y, T)])
                       if t.k == "vf"]
                pin = {lo for lo, hi, _ in los if lo == hi}
                if len(pin) == 1:
                    ctx.ob("C21.persisted", "decode " + net, pin == {CHAIN.get(net, next(iter(pin)))}, "code %s is read as %s" % (pin, net), sp)
    ctx.floor("C21.chain-id", 10, "networks with a chain id")


def e_param(ctx, d, i):
    b = ctx.p.bodies[d]
    return b["locals"][i + 1].get("n") or str(i)


# ------------------------------------------------------------------------------------------------ C22 two-key maps
MKM = "evm_minter::map::MultiKeyMap::<Key, AltKey, V>::"
DMK = "evm_minter::map::DedupMultiKeyMap::<Key, AltKey, V>::"

MULTI = {
    "is_empty": "-> is_empty($0.by_key)",
    "try_insert": """
        is(get($0.by_alt_key, $2), Some) && is(get($0.by_key, $1), Some) -> Err{OccupiedError{occupied_key=_, value=$3}}
        is(get($0.by_alt_key, $2), Some) && is(get($0.by_key, $1), None) -> Err{OccupiedError{occupied_key=AltKey{$2}, value=$3}}
        is(get($0.by_alt_key, $2), None) && is(get($0.by_key, $1), Some) -> Err{OccupiedError{occupied_key=Key{$1}, value=$3}}
        is(get($0.by_alt_key, $2), None) && is(get($0.by_key, $1), None) -> Ok{()} ; $0 := $0 with {by_alt_key = $0.by_alt_key~insert($2, $3), by_key = $0.by_key~insert($1, $2)}""",
    "get": """
        is(get($0.by_key, $1), None) -> None
        is(get($0.by_key, $1), Some) && is(get($0.by_alt_key, get($0.by_key, $1)?), None) -> None
        is(get($0.by_key, $1), Some) && is(get($0.by_alt_key, get($0.by_key, $1)?), Some) -> Some{get($0.by_alt_key, get($0.by_key, $1)?)?}""",
    "get_entry": """
        is(get($0.by_key, $1), None) -> None
        is(get($0.by_key, $1), Some) && is(get($0.by_alt_key, get($0.by_key, $1)?), None) -> None
        is(get($0.by_key, $1), Some) && is(get($0.by_alt_key, get($0.by_key, $1)?), Some) -> Some{(get($0.by_key, $1)?, get($0.by_alt_key, get($0.by_key, $1)?)?)}""",
    "get_mut": """
        is(get($0.by_key, $1), None) -> None
        is(get($0.by_key, $1), Some) && is(get($0.by_alt_key, get($0.by_key, $1)?), None) -> None
        is(get($0.by_key, $1), Some) && is(get($0.by_alt_key, get($0.by_key, $1)?), Some) -> Some{get($0.by_alt_key, get($0.by_key, $1)?)?}""",
    "get_alt": """
        is(get($0.by_alt_key, $1), None) -> None
        is(get($0.by_alt_key, $1), Some) -> Some{get($0.by_alt_key, $1)?}""",
    "contains": "-> isv(get($0.by_key, $1), Some)",
    "contains_alt": "-> isv(get($0.by_alt_key, $1), Some)",
    "remove_entry": """
        is(get($0.by_key, $1), None) -> None
        is(get($0.by_key, $1), Some) && is(get($0.by_alt_key, get($0.by_key, $1)?), None) -> panic
        is(get($0.by_key, $1), Some) && is(get($0.by_alt_key, get($0.by_key, $1)?), Some) -> Some{($1, get($0.by_key, $1)?, get($0.by_alt_key, get($0.by_key, $1)?)?)} ; $0 := $0 with {by_alt_key = $0.by_alt_key~remove(get($0.by_key, $1)?), by_key = $0.by_key~remove($1)}""",
    "iter": "-> seq($0.by_key, (each($0.by_key).0, each($0.by_key).1, get($0.by_alt_key, each($0.by_key).1)?))",
    "keys": "-> seq($0.by_key, each($0.by_key).0)",
    "alt_keys": "-> seq($0.by_alt_key, each($0.by_alt_key).0)",
}
DEDUP = {
    "try_insert": """
        is(get($0.map.by_alt_key, $2), Some) && is(get($0.map.by_key, $1), Some) -> Err{OccupiedError{occupied_key=_, value=$3}}
        is(get($0.map.by_alt_key, $2), Some) && is(get($0.map.by_key, $1), None) -> Err{OccupiedError{occupied_key=AltKey{$2}, value=$3}}
        is(get($0.map.by_alt_key, $2), None) && is(get($0.map.by_key, $1), Some) -> Err{OccupiedError{occupied_key=Key{$1}, value=$3}}
        is(get($0.map.by_alt_key, $2), None) && is(get($0.map.by_key, $1), None) -> Ok{()} ; $0 := $0 with {map = $0.map with {by_alt_key = $0.map.by_alt_key~insert($2, ($1, $3)), by_key = $0.map.by_key~insert($1, $2)}}""",
    "get": """
        is(get($0.map.by_key, $1), None) -> None
        is(get($0.map.by_key, $1), Some) && is(get($0.map.by_alt_key, get($0.map.by_key, $1)?), None) -> None
        is(get($0.map.by_key, $1), Some) && is(get($0.map.by_alt_key, get($0.map.by_key, $1)?), Some) -> Some{get($0.map.by_alt_key, get($0.map.by_key, $1)?)?.1}""",
    "get_alt": """
        is(get($0.map.by_alt_key, $1), None) -> None
        is(get($0.map.by_alt_key, $1), Some) -> Some{get($0.map.by_alt_key, $1)?.1}""",
    "get_entry": """
        is(get($0.map.by_key, $1), None) -> None
        is(get($0.map.by_key, $1), Some) && is(get($0.map.by_alt_key, get($0.map.by_key, $1)?), None) -> None
        is(get($0.map.by_key, $1), Some) && is(get($0.map.by_alt_key, get($0.map.by_key, $1)?), Some) -> Some{(get($0.map.by_key, $1)?, get($0.map.by_alt_key, get($0.map.by_key, $1)?)?.1)}""",
    "get_entry_alt": """
        is(get($0.map.by_alt_key, $1), None) -> None
        is(get($0.map.by_alt_key, $1), Some) -> Some{(get($0.map.by_alt_key, $1)?.0, get($0.map.by_alt_key, $1)?.1)}""",
    "contains_alt": "-> isv(get($0.map.by_alt_key, $1), Some)",
    "alt_keys": "-> seq($0.map.by_alt_key, each($0.map.by_alt_key).0)",
    "iter": "-> seq($0.map.by_key, (each($0.map.by_key).0, each($0.map.by_key).1, get($0.map.by_alt_key, each($0.map.by_key).1)?.1))",
}


def check_C22(ctx):
    specs(ctx, "C22.two-key-map", MULTI, lambda n: MKM + n if MKM + n in ctx.p.bodies else None)
    specs(ctx, "C22.dedup-map", DEDUP, lambda n: DMK + n if DMK + n in ctx.p.bodies else None)
    d = next((x for x in ctx.p.bodies if "map::MultiKeyMap" in x and x.endswith("::from_iter")), None)
    if d:
        check_table(ctx, "C22.two-key-map", d, "-> MultiKeyMap{by_alt_key = seq($0, (each($0).1, each($0).2)), by_key = seq($0, (each($0).0, each($0).1))}",
                    name="from_iter")
    drain(ctx)


def drain(ctx):
    d = MKM + "drain"
    if d not in ctx.p.bodies:
        return
    sp = ctx.p.bodies[d]["span"]
    e = ctx.run(d, tag="spec", argnames=["0", "1"], exact=True, collapse=False, prim_types=())
    if e.trunc:
        return
    cn = Canon(ctx)
    S = mk("p", "0")
    k1, k2 = mk("fld", S, "by_key"), mk("fld", S, "by_alt_key")
    rem = [ev for ev in e.events if ev.kind == "call" and ev.name == "op:remove"]
    a = [ev for ev in rem if base(ev.args[0]) is k1]
    b = [ev for ev in rem if base(ev.args[0]) is k2]
    ctx.ob("C22.drain", "both maps", bool(a) == bool(b), "drain removes from only one of the two indexes", sp)
    for ev in b:
        want = {cn.c(mk("vf", mk("call", "op:get", (k1, x.args[1])), "Some", "0")) for x in a}
        got = cn.c(ev.args[1])
        if vocab(got, set()):
            ctx.inconclusive.append("C22.drain: %s" % pp(got)[:200])
        else:
            ctx.ob("C22.drain", "matching entry", not want or got in want, "removes alternative key %s" % pp(got), ev.span)
    # every iteration that removes an entry adds it to the collection that is returned
    outs = {e.snap(s, v) for s, v in e.rets}
    if a and outs and all(o.k == "phi" for o in outs):
        for dd, fid, h, s in e.backs:
            gone = [ev for ev in a if ev.key in s.trace and
                    s.facts.get(mk("is", mk("call", "op:get", (k1, ev.args[1])))) != "None"]
            if not gone or not any(o.a[0] == fid and o.a[1] == h for o in outs):
                continue
            push = [v for k, v in s.mem.items() if v.k == "mutd" and short(v.a[1].replace("op:", "")) in ("push", "push_back")
                    and v.a[0] in outs]
            ctx.ob("C22.drain", "returned", bool(push), "an entry is removed but not returned under [%s]" % ", ".join(
                "%s=%s" % (show(x)[:80], y) for x, y in s.facts.items())[:400], sp)
            for v in push:
                key = gone[0].args[1]
                alt = mk("vf", mk("call", "op:get", (k1, key)), "Some", "0")
                val = mk("vf", mk("call", "op:get", (k2, alt)), "Some", "0")
                got = e.snap(s, v.a[2][0])
                if got.k == "agg" and len(got.a[2]) == 3:
                    g = [cn.c(x) for x in (dict(got.a[2]).values() if isinstance(got.a[2][0], tuple) else got.a[2])]
                    ctx.ob("C22.drain", "returned entry", g == [cn.c(key), cn.c(alt), cn.c(val)],
                           "drain returns %s" % pp(tuple(g))[:300], sp)
    # elements are selected by the predicate, both ways
    for dd, fid, h, s in e.backs:
        ap = [(t, x) for t, x in s.facts.items() if opname(t) == "apply" and isinstance(x, bool)]
        if not ap:
            continue
        pushed = [k for k, v in s.mem.items() if k[0] == "L" and v.k == "mutd" and short(v.a[1].replace("op:", "")) == "push"
                  and v.a[0].k == "phi" and v.a[0].a[1] == h]
        removed = any(ev.kind == "call" and ev.name == "op:remove" and ev.key in s.trace for ev in rem)
        ctx.ob("C22.drain", "predicate %s" % ap[0][1], (bool(pushed) or removed) == ap[0][1],
               "an entry is %s although the predicate is %s" % ("removed" if pushed or removed else "kept", ap[0][1]), sp)


# ------------------------------------------------------------------------------------------------ C07 persisted encoding
SCHEMA = os.path.join(VERIF, "analysis", "cbor_schema.json")


def _attr(attrs):
    """(index, codec) of a persisted field or variant"""
    idx, codec = None, None
    for a in attrs or []:
        m = re.search(r"\b[nb]\((\d+)\)", a)
        if m:
            idx = int(m.group(1))
        m = re.search(r'with\s*=\s*"([^"]+)"', a)
        if m:
            codec = m.group(1)
        m = re.search(r'(encode_with|decode_with)\s*=\s*"([^"]+)"', a)
        if m:
            codec = (codec or "") + m.group(0)
    return idx, codec


def schema(ctx):
    out = {}
    for p, a in ctx.p.adts.items():
        vs = {}
        tag = False
        for v in a["variants"]:
            vi, _ = _attr(v.get("attrs"))
            fs = {}
            for f in v["fields"]:
                i, c = _attr(f.get("attrs"))
                if i is not None:
                    fs[str(i)] = [f["n"], f["ty"], c]
            if fs or vi is not None:
                tag = True
            vs[v["n"]] = {"index": vi, "fields": fs}
        if tag:
            flags = sorted(re.sub(r"\s", "", x) for x in (a.get("attrs") or []) if "cbor(" in x)
            out[p] = {"kind": a["kind"], "flags": flags, "variants": vs}
    return out


def check_C07(ctx):
    codecs(ctx)
    derived(ctx)
    storables(ctx)


def derived(ctx, rule="C07", only="", floor=120):
    want = {p: w for p, w in json.load(open(SCHEMA)).items() if only in p}
    have = schema(ctx)
    for p, w in want.items():
        h = have.get(p)
        nm = p.replace(M, "")
        if h is None:
            same = [q for q in have if have[q] == w and q not in want]
            if same:
                continue
            if not ctx.need(p in ctx.p.adts, rule + ".layout", nm, "persisted type %s no longer exists" % nm):
                continue
            ctx.ob(rule + ".layout", nm, False, "type %s lost its persisted encoding" % nm, ctx.p.adts[p]["span"])
            continue
        sp = ctx.p.adts[p]["span"]
        ctx.ob(rule + ".layout", nm + " form", h["flags"] == w["flags"], "encoding form of %s changed: %s, stored data uses %s" % (
            nm, h["flags"], w["flags"]), sp)
        hv = {(v["index"] if w["kind"] == "Enum" else 0): (n, v) for n, v in h["variants"].items()}
        wn = {n: v["index"] for n, v in w["variants"].items()}
        for n, v in w["variants"].items():
            i = v["index"] if w["kind"] == "Enum" else 0
            inst = nm + ("::" + n if w["kind"] == "Enum" else "")
            if w["kind"] == "Enum":
                cur = h["variants"].get(n)
                ok1 = i in hv and (cur is None or cur["index"] == i)
                if not ctx.ob(rule + ".variant-code", inst, ok1, "stored code %s of %s now means %s" % (
                        i, inst, hv[i][0] if i in hv else "nothing"), sp):
                    continue
            hf = hv[i][1]["fields"]
            names = {x[0]: j for j, x in hf.items()}
            for j, (fn, ty, codec) in v["fields"].items():
                fi = "%s.%s" % (inst, fn)
                if j not in hf:
                    ctx.ob(rule + ".field-code", fi, False, "field code %s of %s is gone: stored values of %s are lost" % (j, inst, fn), sp)
                    continue
                f2, t2, c2 = hf[j]
                moved = f2 != fn and fn in names
                typ = norm_ty(ctx, ty) == norm_ty(ctx, t2) or gone(ctx, ty)
                ctx.ob(rule + ".field-code", fi, not moved, "field code %s of %s now holds %s instead of %s" % (j, inst, f2, fn), sp)
                ctx.ob(rule + ".field-type", fi, typ, "field %s changed type from %s to %s" % (fi, ty, t2), sp)
                ctx.ob(rule + ".field-codec", fi, (codec or "").split("::")[-2:] == (c2 or "").split("::")[-2:] or norm_ty(ctx, ty) != norm_ty(ctx, t2),
                       "field %s changed its codec from %s to %s" % (fi, codec, c2), sp)
            for j, (fn, ty, codec) in hf.items():
                if j not in v["fields"]:
                    ctx.ob(rule + ".field-added", "%s.%s" % (inst, fn), ty.startswith("core::option::Option"),
                           "new field %s is not optional: stored records without it cannot be read" % fn, sp)
        # codes are unique
        ixs = [v["index"] for v in h["variants"].values() if v["index"] is not None]
        ctx.ob(rule + ".layout", nm + " distinct", len(ixs) == len(set(ixs)), "two variants of %s share a code" % nm, sp)
    ctx.floor(rule + ".field-code", floor, "persisted fields")


def norm_ty(ctx, t):
    return re.sub(r"'\w+ ?", "", t)


def gone(ctx, ty):
    """a local type named by the stored layout was renamed or moved"""
    loc = re.findall(r"evm_minter::[\w:]+", ty)
    return any(x not in ctx.p.adts for x in loc) and not all(x in ctx.p.adts for x in loc)


POS = ("agg", "PosBignum", ())


def enc_ops(cn, s, sink):
    """encoder calls of one path: [(op, argument)] in order, following the chained receiver"""
    out = []
    for k, x in s.mem.items():
        if k[0] != "T" or x is k[1]:
            continue
        r, cur = k[1], 0
        depth = 0
        while r.k == "vf" and r.a[0].k == "call":
            r = r.a[0].a[1][0]
            depth += 1
        if not (r.k == "p" and str(r.a[0]) == sink):
            continue
        b, ops = unroll(x)
        for o, a in ops:
            if o != "ok":
                out.append((depth, o, tuple(a)))
    out.sort(key=lambda z: z[0])
    return [(o, a) for _, o, a in out]


def codecs(ctx):
    num_encode(ctx, "cbor::u256::encode", lambda t: t)
    num_encode(ctx, "cbor::nat::encode", lambda t: mk("fld", t, "0"))
    num_decode(ctx, "cbor::u256::decode", 32)
    num_decode(ctx, "cbor::nat::decode", None)
    X = ("message", "to_string", "is_type_mismatch", "position", "set_position", "try_from_slice", "as_slice", "decode", "encode")
    for n, s in (
            ("cbor::principal::decode", """
                is(bytes($0), Err) -> Err{_} ; $0 := _
                is(bytes($0), Ok) && is(try_from_slice(bytes($0)?), Ok) -> Ok{try_from_slice(bytes($0)?)?} ; $0 := _
                is(bytes($0), Ok) && is(try_from_slice(bytes($0)?), Err) -> Err{_} ; $0 := _"""),
            ("cbor::principal::encode", "-> _ ; $1 := $1~bytes($0)"),
            ("cbor::id::decode", """
                is(decode($0, $1), Ok) -> Ok{decode($0, $1)?} ; $0 := _ ; $1 := _
                is(decode($0, $1), Err) -> Err{_} ; $0 := _ ; $1 := _"""),
            ("cbor::id::encode", "-> encode($0, $1, $2) ; $1 := _ ; $2 := _"),
            ("cbor::nat::option::decode", """
                is(decode($0, $1), Err) -> Err{_} ; $0 := _ ; $1 := _
                is(decode($0, $1), Ok) && is(decode($0, $1)?, Some) -> Ok{Some{decode($0, $1)??.0}} ; $0 := _ ; $1 := _
                is(decode($0, $1), Ok) && is(decode($0, $1)?, None) -> Ok{None} ; $0 := _ ; $1 := _"""),
            ("cbor::principal::option::decode", """
                is(decode($0, $1), Err) -> Err{_} ; $0 := _ ; $1 := _
                is(decode($0, $1), Ok) && is(decode($0, $1)?, Some) -> Ok{Some{decode($0, $1)??.0}} ; $0 := _ ; $1 := _
                is(decode($0, $1), Ok) && is(decode($0, $1)?, None) -> Ok{None} ; $0 := _ ; $1 := _"""),
            ("cbor::nat::option::encode", """
                is($0, Some) -> encode(Some{CborNat{$0?}}, $1, $2) ; $1 := _ ; $2 := _
                is($0, None) -> encode(None, $1, $2) ; $1 := _ ; $2 := _"""),
            ("cbor::principal::option::encode", """
                is($0, Some) -> encode(Some{CborPrincipal{$0?}}, $1, $2) ; $1 := _ ; $2 := _
                is($0, None) -> encode(None, $1, $2) ; $1 := _ ; $2 := _""")):
        d = ctx.fn(n)
        if ctx.need(d is not None, "C07.codec", n, "codec %s not found" % n):
            check_table(ctx, "C07.codec", d, s, name=n, extra=X)
    # amounts use the 256-bit codec in both directions
    for tr, fn in (("minicbor::encode::Encode", "encode"), ("minicbor::decode::Decode", "decode")):
        d = next((x for x in ctx.p.bodies if "CheckedAmountOf<Unit> as " + tr in x), None)
        if ctx.need(d is not None, "C07.codec", "amount " + fn, "amounts have no %s" % fn):
            if fn == "encode":
                num_encode(ctx, d, lambda t: mk("fld", t, "0"))
            else:
                num_decode(ctx, d, 32)
    ctx.floor("C07.codec", 20, "value codecs")


def num_encode(ctx, n, inner):
    d = n if n in ctx.p.bodies else ctx.fn(n)
    if not ctx.need(d is not None, "C07.codec", n, "codec %s not found" % n):
        return
    sp = ctx.p.bodies[d]["span"]
    e = ctx.run(d, tag="spec", argnames=["0", "1", "2"], exact=True, collapse=False, prim_types=())
    if e.trunc:
        return
    v = inner(mk("p", "0"))
    cn = Canon(ctx)
    cv = cn.c(v)
    nm = short_name(d)
    for i, (s, r) in enumerate(e.rets):
        if variant(r) == "Err":
            continue
        lo, hi, _ = interval(s.facts, v)
        for a, x in s.facts.items():          # Nat: conversion attempts bound the value
            if a.k == "is" and opname(a.a[0]) == "try_into" and a.a[0].a[1][0] is v:
                m = re.search(r"u(\d+)", str(a.a[0].a[1][1].a[-1]) if len(a.a[0].a[1]) > 1 else "")
                if m:
                    lim = (1 << int(m.group(1))) - 1
                    if x == "Some":
                        hi = min(hi, lim)
                    else:
                        lo = max(lo, lim + 1)
        ops = enc_ops(cn, s, "1")
        desc = "; ".join("%s(%s)" % (o, ", ".join(pp(cn.c(y)) for y in a)) for o, a in ops)
        lab = "%s #%d" % (nm, i)
        if len(ops) == 1 and re.fullmatch(r"u(8|16|32|64)", ops[0][0]):
            w = int(ops[0][0][1:])
            a = ops[0][1][0]
            m = re.fullmatch(r"as_u(\d+)", opname(a) or "")
            ww = min(w, int(m.group(1))) if m else w
            src = a.a[1][0] if m else a
            if cn.c(src) == cv:
                ctx.ob("C07.codec", lab, hi <= (1 << ww) - 1, "a value up to %d is written as a %d-bit number" % (hi, ww), sp)
            elif vocab(cn.c(src), {"try_into"}):
                ctx.inconclusive.append("C07.codec %s: %s" % (lab, desc[:200]))
            else:
                ctx.ob("C07.codec", lab, False, "the number written is %s, not the value" % pp(cn.c(src)), sp)
        elif [o for o, _ in ops] == ["tag", "bytes"]:
            t, b = cn.c(ops[0][1][0]), cn.c(ops[1][1][0])
            full = [("call", "to_be_bytes", (cv,)), ("call", "to_bytes_be", (cv,))]
            good = b in full
            if b[0] == "slice" and b[1] in full and b[3] == ("end",):
                st = b[2]
                z = ("call", "div", (("call", "leading_zeros", (cv,)), ("int", 8)))
                pos = opname_pos(s, ops[1][1][0])
                good = st in (("int", 0), z) or pos
                if not good and vocab(st, {"idx"}):
                    if not (st[0] == "call" and st[1] == "idx"):
                        ctx.inconclusive.append("C07.codec %s: %s" % (lab, desc[:200]))
                        continue
            elif not good and vocab(b, set()):
                ctx.inconclusive.append("C07.codec %s: %s" % (lab, desc[:200]))
                continue
            ctx.ob("C07.codec", lab, good and t == POS, "large values are written as %s" % desc[:300], sp)
        elif not ops:
            ctx.ob("C07.codec", lab, False, "nothing is written on a successful path", sp)
        else:
            ctx.inconclusive.append("C07.codec %s: %s" % (lab, desc[:200]))


def opname_pos(s, t):
    """slice starting at the first non-zero byte (or at the end if there is none)"""
    if t.k != "call" or opname(t) != "slice":
        return False
    st = field(t.a[1][1], "start") if t.a[1][1].k == "agg" else None
    if st is None:
        return False
    b = t.a[1][0]
    for a, x in s.facts.items():
        if a.k == "is" and opname(a.a[0]) == "find" and a.a[0].a[1][0] is b:
            if x == "Some":
                nz = any(opname(f) == "eq" and y is False and any(kval(q) == 0 for q in f.a[1]) and
                         any(q.k == "elem" for q in f.a[1]) for f, y in s.facts.items())
                return nz and opname(st) == "idx" or (st.k == "idx" and nz)
            if x == "None":
                return opname(st) == "len" or kval(st) is not None
    return False


def num_decode(ctx, n, width):
    d = n if n in ctx.p.bodies else ctx.fn(n)
    if not ctx.need(d is not None, "C07.codec", n, "codec %s not found" % n):
        return
    sp = ctx.p.bodies[d]["span"]
    e = ctx.run(d, tag="spec", argnames=["0", "1"], exact=True, collapse=False, prim_types=())
    if e.trunc:
        return
    cn = Canon(ctx, ("*",))
    nm = short_name(d)
    P = ("p", "0")
    small = ("vf", ("call", "u64", (P,)), "0")
    kinds = set()
    for i, (s, r) in enumerate(e.rets):
        if variant(r) != "Ok":
            continue
        v = normal(cn.c(e.snap(s, field(r, "0"))))
        while v[0] == "agg" and v[1] in ("Nat",) and len(v[2]) == 1:
            v = v[2][0][1]
        lab = "%s #%d" % (nm, i)
        if v == small:
            kinds.add("small")
            ctx.ob("C07.codec", lab, True)
            continue
        inner = None
        if v[0] == "call" and v[1] in ("from_be_bytes", "from_bytes_be"):
            inner = v[2][0]
            if inner[0] == "call" and inner[1] == "right_aligned" and inner[2][0] == ("int", width):
                inner = inner[2][1]
            elif width is not None:
                if not vocab(inner, {"position", "set_position"}):
                    ctx.ob("C07.codec", lab, False, "big numbers are decoded from %s" % pp(inner)[:300], sp)
                else:
                    ctx.inconclusive.append("C07.codec %s: %s" % (lab, pp(v)[:200]))
                continue
        if inner is None:
            if vocab(v, {"position", "set_position"}):
                ctx.inconclusive.append("C07.codec %s: %s" % (lab, pp(v)[:200]))
            else:
                ctx.ob("C07.codec", lab, False, "decodes to %s" % pp(v)[:300], sp)
            continue
        kinds.add("big")
        rewound = ("mutd", ("mutd", P, "u64", ()), "set_position", (("call", "position", (P,)),))
        want = ("vf", ("call", "bytes", (("mutd", rewound, "tag", ()),)), "0")
        fresh = ("vf", ("call", "bytes", (("mutd", P, "tag", ()),)), "0")
        ctx.ob("C07.codec", lab + " position", inner in (want, fresh), "the bytes come from %s: the reader must be rewound to the start of the item" % pp(inner)[:300], sp)
        tags = [x for a, x in s.facts.items() if a.k == "is" and a.a[0].k == "vf" and opname(a.a[0].a[0]) == "tag"]
        ctx.ob("C07.codec", lab + " tag", "PosBignum" in tags, "a byte string is read as a number without its big-number tag", sp)
        if width is not None:
            ln = [x.a[1][0] for a in s.facts for x in walk(a) if opname(x) == "len"]
            his = [interval(s.facts, x)[1] for a in s.facts for x in walk(a) if opname(x) == "len"]
            ctx.ob("C07.codec", lab + " width", bool(his) and min(his) <= width, "byte strings longer than %d bytes are accepted" % width, sp)
            ctx.ob("C07.codec", lab + " all widths", not his or min(his) == width, "numbers of %s+1..%d bytes are rejected" % (
                min(his) if his else 0, width), sp)
    if kinds != {"small", "big"} and not any(nm in x for x in ctx.inconclusive):
        ctx.ob("C07.codec", nm + " ranges", False, "only %s numbers can be decoded" % sorted(kinds), sp)


def storables(ctx):
    """stored records are written and read with the same codec, without loss"""
    for d, b in ctx.p.bodies.items():
        if not (b.get("impl_trait") or "").endswith("storable::Storable") or b.get("item_name") not in ("to_bytes", "from_bytes"):
            continue
        cal = set()
        for bl in b["blocks"]:
            if bl and bl["te"]["t"] == "call":
                f = bl["te"]["f"].get("k", {}).get("fn") or {}
                cal.add(f.get("def", ""))
        w = b["item_name"] == "to_bytes"
        want = "minicbor::encode::encode" if w else "minicbor::decode::decode"
        hit = [c for c in cal if c.startswith("minicbor::") and c.split("::")[-1] == ("encode" if w else "decode")]
        if not hit and any(c.startswith(("ciborium", "serde_cbor", "candid", "serde_json", "bincode")) for c in cal):
            ctx.ob("C07.storage", short_name(d), False, "stored records use another codec: %s" % sorted(cal)[:6], b["span"])
        elif hit:
            ctx.ob("C07.storage", short_name(d), True)
        else:
            ctx.inconclusive.append("C07.storage %s: %s" % (short_name(d), sorted(cal)[:5]))
