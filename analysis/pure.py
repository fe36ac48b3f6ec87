"""Abstract domains used to compare path conditions and results of small functions: intervals, linear forms, byte tests."""
from lib import *

MAX256 = (1 << 256) - 1


def kval(t):
    """integer constant"""
    if t.k == "k" and t.a[0] == "int" and isinstance(t.a[1], int):
        return t.a[1]
    if t.k == "agg" and len(t.a[2]) == 1 and t.a[1] is None:
        return kval(t.a[2][0][1])
    return None


def rawval(t):
    """byte-string constant as hex, looking through single-field wrappers"""
    while t.k == "agg" and len(t.a[2]) == 1:
        t = t.a[2][0][1]
    if t.k == "ref":
        return None
    if t.k == "k":
        if t.a[0] == "raw":
            return str(t.a[1])
    if t.k == "agg" and t.a[0] == "[]":
        vs = [kval(v) for _, v in t.a[2]]
        if all(v is not None and v < 256 for v in vs):
            return "".join("%02x" % v for v in vs)
    return None


ADD, SUB = ("add", "wrapping_add", "saturating_add"), ("sub", "wrapping_sub")


def opname(t):
    return short(t.a[0].replace("op:", "")) if t.k == "call" else None


def lin(t):
    """linear form: ({atom: coefficient}, constant)"""
    c = kval(t)
    if c is not None:
        return {}, c
    o = opname(t)
    if o in ("add", "sub") and len(t.a[1]) == 2:
        (a, ca), (b, cb) = lin(t.a[1][0]), lin(t.a[1][1])
        s = 1 if o == "add" else -1
        r = dict(a)
        for x, n in b.items():
            r[x] = r.get(x, 0) + s * n
        return {x: n for x, n in r.items() if n}, ca + s * cb
    if o in ("inc", "dec") and len(t.a[1]) == 1:
        a, ca = lin(t.a[1][0])
        return a, ca + (1 if o == "inc" else -1)
    return {t: 1}, 0


def lineq(a, b):
    if a is None or b is None:
        return False
    return a is b or lin(a) == lin(b)


def interval(facts, t):
    """[lo, hi, excluded] of integer term t established by the path condition"""
    lo, hi, ex = 0, MAX256, set()
    for a, v in facts.items():
        o = opname(a)
        if a is t and isinstance(v, int) and not isinstance(v, bool):
            lo, hi = max(lo, v), min(hi, v)
            continue
        if a is t and isinstance(v, frozenset):
            ex |= {x for x in v if isinstance(x, int)}
            continue
        if a.k == "discr" and a.a[0] is t:
            if isinstance(v, int):
                lo, hi = max(lo, v), min(hi, v)
            continue
        if o not in ("lt", "le", "gt", "ge", "eq", "ne", "contains", "is_empty"):
            continue
        if o == "is_empty":
            if t.k == "call" and opname(t) == "len" and t.a[1][0] is a.a[1][0]:
                if v is True:
                    hi = min(hi, 0)
                elif v is False:
                    lo = max(lo, 1)
            continue
        if len(a.a[1]) != 2 or v not in (True, False):
            continue
        x, y = a.a[1]
        if o == "contains" and y is t and x.k == "agg" and x.a[0].endswith("RangeInclusive") and v is True:
            s, e = kval(field(x, "start")), kval(field(x, "end"))
            if s is not None and e is not None:
                lo, hi = max(lo, s), min(hi, e)
            continue
        if o == "contains" and y is t and x.k == "agg" and x.a[0].endswith("::Range") and v is True:
            s, e = kval(field(x, "start")), kval(field(x, "end"))
            if s is not None and e is not None:
                lo, hi = max(lo, s), min(hi, e - 1)
            continue
        if o in ("gt", "ge"):
            x, y = y, x
            o = {"gt": "lt", "ge": "le"}[o]
        if o == "ne":
            o, v = "eq", not v
        if not v and o == "lt":        # !(x < y)  ==  y <= x
            o, x, y, v = "le", y, x, True
        elif not v and o == "le":
            o, x, y, v = "lt", y, x, True
        cx, cy = kval(x), kval(y)
        if o == "eq":
            c = cy if x is t else cx if y is t else None
            if c is None:
                continue
            if v:
                lo, hi = max(lo, c), min(hi, c)
            else:
                ex.add(c)
        elif x is t and cy is not None:
            hi = min(hi, cy - (1 if o == "lt" else 0))
        elif y is t and cx is not None:
            lo = max(lo, cx + (1 if o == "lt" else 0))
    while lo in ex:
        lo += 1
    while hi in ex:
        hi -= 1
    return lo, hi, {x for x in ex if lo <= x <= hi}


def cmp_known(facts, x, y):
    """what the path condition says about x ? y, as a subset of '<=>' """
    r = set("<=>")
    for a, v in facts.items():
        o = opname(a)
        if o not in ("lt", "le", "gt", "ge", "eq", "ne") or v not in (True, False) or len(a.a[1]) != 2:
            continue
        p, q = a.a[1]
        if lineq(p, x) and lineq(q, y):
            sw = False
        elif lineq(p, y) and lineq(q, x):
            sw = True
        else:
            continue
        s = {"lt": "<", "le": "<=", "gt": ">", "ge": ">=", "eq": "=", "ne": "<>"}[o]
        s = set(s) if v else set("<=>") - set(s)
        if sw:
            s = {{"<": ">", ">": "<", "=": "="}[c] for c in s}
        r &= s
    return r


def unwrapped(p, q):
    """the content of p, seen through the single-field wrappers of the constant q it is compared with"""
    while q.k == "agg" and q.a[0] != "[]" and len(q.a[2]) == 1:
        n = q.a[2][0][0]
        p = p.a[2][0][1] if p.k == "agg" and len(p.a[2]) == 1 else mk("fld", p, n)
        q = q.a[2][0][1]
    return p


def zeros(facts, t):
    """is byte sequence t known to be all zero (True), known not to be (False), or unknown (None)"""
    for a, v in facts.items():
        o = opname(a)
        if o == "any" and a.a[1][0] is t and v in (True, False):
            p = a.a[1][1]
            if p.k == "not" and opname(p.a[0]) == "eq" and any(kval(x) == 0 for x in p.a[0].a[1]):
                return not v
        if o == "all" and a.a[1][0] is t and v in (True, False):
            p = a.a[1][1]
            if opname(p) == "eq" and any(kval(x) == 0 for x in p.a[1]):
                return v
        if o == "eq" and v in (True, False):
            x, y = a.a[1]
            for p, q in ((x, y), (y, x)):
                if (p is t or unwrapped(p, q) is t) and q.k != "p":
                    r = rawval(q)
                    if r is not None and set(r) <= {"0"}:
                        return v
    return None


def mentions(facts, t):
    return [a for a in facts if contains(a, lambda x: x is t)]


def is_min(facts, t, x, y, hi=False):
    """t is the smaller (larger if hi) of x and y"""
    o = opname(t)
    if o == ("max" if hi else "min") and len(t.a[1]) == 2:
        return {*t.a[1]} == {x, y}
    if o in ("min", "max"):
        return False
    c = cmp_known(facts, x, y)
    if hi:
        return (t is x and c <= set(">=")) or (t is y and c <= set("<="))
    return (t is x and c <= set("<=")) or (t is y and c <= set(">="))


def keccak256(data):
    RC = []
    r = 1
    for i in range(24):
        v = 0
        for j in range(7):
            if r & 1:
                v |= 1 << ((1 << j) - 1)
            r = (r << 1) ^ ((r >> 7) * 0x171)
        RC.append(v)
    M64 = (1 << 64) - 1

    def rol(x, n):
        n %= 64
        return ((x << n) | (x >> (64 - n))) & M64 if n else x
    A = [[0] * 5 for _ in range(5)]
    p = bytearray(data)
    p.append(1)
    while len(p) % 136:
        p.append(0)
    p[-1] |= 0x80
    for o in range(0, len(p), 136):
        for i in range(17):
            A[i % 5][i // 5] ^= int.from_bytes(p[o + 8 * i:o + 8 * i + 8], "little")
        for rnd in range(24):
            C = [A[x][0] ^ A[x][1] ^ A[x][2] ^ A[x][3] ^ A[x][4] for x in range(5)]
            D = [C[(x - 1) % 5] ^ rol(C[(x + 1) % 5], 1) for x in range(5)]
            A = [[A[x][y] ^ D[x] for y in range(5)] for x in range(5)]
            B = [[0] * 5 for _ in range(5)]
            x, y = 1, 0
            cur = A[x][y]
            B2 = [[0] * 5 for _ in range(5)]
            B2[0][0] = A[0][0]
            for t in range(24):
                nx, ny = y, (2 * x + 3 * y) % 5
                B2[nx][ny] = rol(A[x][y], (t + 1) * (t + 2) // 2)
                x, y = nx, ny
            A = [[B2[x][y] ^ ((~B2[(x + 1) % 5][y]) & M64 & B2[(x + 2) % 5][y]) for y in range(5)] for x in range(5)]
            A[0][0] ^= RC[rnd]
    return b"".join(A[i % 5][i // 5].to_bytes(8, "little") for i in range(4)).hex()


assert keccak256(b"") == "c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470"
