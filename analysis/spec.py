"""Comparison of a function's exact decision table with a written specification table.

A specification is a list of rows `conditions -> result [; $i := final content of by-reference argument i]`.
The rows of the specification are exhaustive; a path of the program is wrong when its condition is compatible with a
row whose result differs.  Terms are compared in a canonical form (linear arithmetic, commutative operators, slices),
conditions as intervals over linear expressions and as variant/boolean literals, so that reordered tests, extra
helper functions, renamed variables or equivalent operators do not matter.  Operators outside the vocabulary give no
verdict instead of an alarm.
"""
from pure import *
from engine import kstr, tup, some, ok, err

TRANSPARENT = ("CheckedAmountOf", "Address")

# ------------------------------------------------------------------------------------------------ parser
_tok = re.compile(r"\s*(->|:=|&&|\.\.|'[^']*'|0x[0-9a-fA-F]+|\d[\d_]*|[A-Za-z_][\w:]*|\$\w+|[(){}\[\],.?!~;=])")


class _P:
    def __init__(self, s):
        self.t = []
        i = 0
        s = s.strip()
        while i < len(s):
            m = _tok.match(s, i)
            if not m:
                raise ValueError("spec syntax at %r" % s[i:i + 30])
            self.t.append(m.group(1))
            i = m.end()
            while i < len(s) and s[i].isspace():
                i += 1
        self.i = 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def next(self):
        self.i += 1
        return self.t[self.i - 1]

    def eat(self, x):
        if self.peek() != x:
            raise ValueError("spec: expected %s before %s in %s" % (x, self.peek(), " ".join(self.t)))
        self.i += 1

    def args(self, close):
        out = []
        while self.peek() != close:
            out.append(self.expr())
            if self.peek() == ",":
                self.next()
        self.next()
        return out

    def expr(self):
        t = self.atom()
        while self.peek() in (".", "?", "~", "[", "with"):
            c = self.next()
            if c == "with":
                self.eat("{")
                us = []
                while self.peek() != "}":
                    n = self.next()
                    self.eat("=")
                    us.append((("f", n), self.expr()))
                    if self.peek() == ",":
                        self.next()
                self.next()
                t = mk("upd", t, tuple(us))
                continue
            if c == ".":
                t = mk("fld", t, self.next())
            elif c == "?":
                t = mk("vf", t, "*", "0")
            elif c == "=":
                pass
            elif c == "~":
                n = self.next()
                self.eat("(")
                t = mk("mutd", t, n, tuple(self.args(")")), 0)
            else:                                   # slice  x[a..b]
                lo = None if self.peek() == ".." else self.expr()
                self.eat("..")
                hi = None if self.peek() == "]" else self.expr()
                self.eat("]")
                t = mk("slice", t, lo or kint(0), hi or mk("end"))
        return t

    def atom(self):
        c = self.next()
        if c == "_":
            return mk("any")
        if c.startswith("$"):
            return mk("p", c[1:])
        if c.startswith("0x"):
            return mk("k", "raw", c[2:].lower())
        if c[0].isdigit():
            return kint(int(c.replace("_", "")))
        if c[0] == "'":
            return kstr(c[1:-1])
        if c == "true":
            return TRUE
        if c == "false":
            return FALSE
        if c == "(":
            a = self.args(")")
            return tup(*a)
        if self.peek() == "(" and c == "zeros":
            self.next()
            return mk("zeros", self.args(")")[0])
        if self.peek() == "(" and c == "isv":
            self.next()
            x = self.expr()
            self.eat(",")
            v = self.next()
            self.eat(")")
            return mk("isv", x, v)
        if self.peek() == "(" and c == "each":
            self.next()
            return mk("elem", self.args(")")[0])
        if self.peek() == "(" and c == "not":
            self.next()
            return mk("not", self.args(")")[0])
        if self.peek() == "(":
            self.next()
            return mk("call", c, tuple(self.args(")")))
        if self.peek() == "{":
            self.next()
            fs = []
            i = 0
            while self.peek() != "}":
                if self.i + 1 < len(self.t) and self.t[self.i + 1] == "=":
                    n = self.next()
                    self.next()
                else:
                    n = str(i)
                fs.append((n, self.expr()))
                i += 1
                if self.peek() == ",":
                    self.next()
            self.next()
            return mk("agg", "?::" + c, c, tuple(fs))
        return mk("agg", "?::" + c, c, ())


def parse_term(s):
    return _P(s).expr()


def parse_spec(text):
    """[(conditions [(term, value)], result, {param: content})]"""
    rows = []
    for line in text.strip().splitlines():
        line = line.strip()
        if not line or line.startswith("#"):
            continue
        cond, _, res = line.partition("->")
        cs = []
        for c in cond.split("&&"):
            c = c.strip()
            if not c:
                continue
            neg = c.startswith("!")
            c = c[1:] if neg else c
            m = re.match(r"is\((.*),\s*(!?)([\w|]+)\)$", c)
            if m:
                v = frozenset(m.group(3).split("|")) if m.group(2) else m.group(3)
                cs.append((mk("is", parse_term(m.group(1))), v))
                continue
            cs.append((parse_term(c), not neg))
        parts = res.split(";")
        mem = {}
        for p in parts[1:]:
            if p.strip():
                l, _, r = p.partition(":=")
                mem[l.strip().lstrip("$")] = parse_term(r)
        v = parts[0].strip()
        rows.append((cs, None if v == "panic" else parse_term(v), mem))
    return rows


# ------------------------------------------------------------------------------------------------ canonical terms
ALIAS = {"div_euclid": "div", "rem_euclid": "rem", "index": "at", "get_ref": "get", "to_owned": "to_string",
         "into_be_bytes": "to_be_bytes"}
COMM = {"mul", "min", "max", "eq", "bitand", "bitor", "bitxor", "and", "or"}


class Canon:
    def __init__(self, ctx, erase0=(), consts=True):
        self.ctx, self.erase0 = ctx, erase0
        self.e = self.st = None
        self.memo = {}

    def const(self, path):
        """value of a named (associated) constant from its body"""
        d = path if path in self.ctx.p.bodies else self.ctx.fn(path)
        if d is None:
            return None
        e, rows = self.ctx.table(d, prim_types=())
        return rows[0][1] if len(rows) == 1 and e.trunc is None else None

    def c(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self._c(t)
        return r

    def _lin(self, t):
        f, c = {}, 0
        stack = [(t, 1)]
        while stack:
            x, s = stack.pop()
            o = opname(x)
            k = kval(x)
            if k is not None:
                c += s * k
            elif o in ("add", "sub") and len(x.a[1]) == 2:
                stack += [(x.a[1][0], s), (x.a[1][1], s if o == "add" else -s)]
            elif o in ("inc", "dec") and len(x.a[1]) == 1:
                stack.append((x.a[1][0], s))
                c += s if o == "inc" else -s
            else:
                y = self.c(x) if x is not t else self._c1(x)
                if y[0] == "int":
                    c += s * y[1]
                elif y[0] == "lin":
                    for a, n in y[1]:
                        f[a] = f.get(a, 0) + s * n
                    c += s * y[2]
                else:
                    f[y] = f.get(y, 0) + s
        return {a: n for a, n in f.items() if n}, c

    def _c(self, t):
        if t.k == "call" and opname(t) in ("add", "sub", "inc", "dec"):
            f, c = self._lin(t)
            if not f:
                return ("int", c)
            if c == 0 and list(f.values()) == [1]:
                return list(f)[0]
            return ("lin", tuple(sorted(f.items(), key=repr)), c)
        return self._c1(t)

    def _c1(self, t):
        k = t.k
        if k == "any":
            return ("any",)
        if k == "k":
            if t.a[0] == "raw":
                h = re.sub(r"alloc\d+", "alloc", str(t.a[1]))
                return ("bytes", h)
            if t.a[0] == "zst":
                return ("zst",)
            if t.a[0] == "pretty":
                return (t.a[0], re.sub(r"alloc\d+", "alloc", str(t.a[1])))
            return (t.a[0], t.a[1])
        if k == "kpath":
            v = self.const(t.a[0])
            return self.c(v) if v is not None else ("kpath", t.a[0])
        if k == "p":
            return ("p", str(t.a[0]))
        if k == "fld":
            b = self.c(t.a[0])
            if t.a[1] == "0" and b[0] in ("int", "bytes"):
                return b
            if t.a[1] == "0" and b[0] == "p" and b[1] in self.erase0:
                return b
            if t.a[1] == "0" and "*" in self.erase0:
                return b
            if b[0] == "agg":
                for n, v in b[2]:
                    if n == t.a[1]:
                        return v
            return ("fld", b, t.a[1])
        if k == "vf":
            o = t.a[0]
            if opname(o) == "strip_prefix" and len(o.a[1]) == 2 and o.a[1][1].k == "k" and o.a[1][1].a[0] == "str":
                return ("slice", self.c(o.a[1][0]), ("int", len(o.a[1][1].a[1].encode())), ("end",))
            return ("vf", self.c(t.a[0]), t.a[2] if t.a[1] in ("*", "Some", "Ok") else (t.a[1], t.a[2]))
        if k == "agg":
            n = t.a[1] or short(t.a[0]) if t.a[0] != "()" else "()"
            if t.a[0] == "[]":
                h = rawval(t)
                if h is not None:
                    return ("bytes", h)
                n = "[]"
            fs = [(f, self.c(v)) for f, v in t.a[2] if not (v.k == "agg" and short(v.a[0]) == "PhantomData")]
            fs = [(f, v) for f, v in fs if v != ("agg", "PhantomData", ())]
            if n in TRANSPARENT and len(fs) == 1:
                return fs[0][1]
            return ("agg", n, tuple(fs))
        if k == "slice":
            return ("slice", self.c(t.a[0]), self.c(t.a[1]), self.c(t.a[2]))
        if k == "end":
            return ("end",)
        if k == "call" and zero_test(t) is not None:
            z = zero_test(t)
            r = ("zeros", self.c(z[0]))
            return r if z[1] else ("not", r)
        if k == "call":
            o = ALIAS.get(opname(t), opname(t))
            a = t.a[1]
            if o in ("div", "shr") and len(a) == 2 and kval(a[1]) is not None:
                kk = kval(a[1]) if o == "div" else 1 << kval(a[1])
                return ("call", "div", (self.c(a[0]), ("int", kk)))
            if o in ("split_l", "split_r") and len(a) == 2:
                x, n = self.c(a[0]), self.c(a[1])
                return ("slice", x, ("int", 0), n) if o == "split_l" else ("slice", x, n, ("end",))
            if o == "slice" and len(a) == 2:
                return self._slice(self.c(a[0]), a[1])
            if o == "get" and len(a) == 2 and a[1].k == "agg" and short(a[1].a[0]) == "RangeTo":
                return self.c(mk("call", "op:get", (a[0], agg("core::ops::range::Range", None, (("start", kint(0)), ("end", field(a[1], "end")))))))
            if o == "len" and len(a) == 1:
                x = self.c(a[0])
                if x[0] == "bytes":
                    return ("int", len(x[1]) // 2)
                if x[0] == "call" and x[1] in ("to_be_bytes",):
                    return ("int", 32)
                return ("call", "len", (x,))
            if o == "mul" and len(a) == 2 and 1 in (kval(a[0]), kval(a[1])):
                return self.c(a[1] if kval(a[0]) == 1 else a[0])
            if o in ("clone", "to_owned", "copied", "cloned") and len(a) == 1:
                return self.c(a[0])
            cs = [self.c(x) for x in a]
            if o in COMM:
                cs.sort(key=repr)
            return ("call", o, tuple(cs))
        if k == "mutd":
            return ("mutd", self.c(t.a[0]), short(t.a[1].replace("op:", "")), tuple(self.c(x) for x in t.a[2]))
        if k == "upd":
            out = []
            for el, v in t.a[1]:
                if el[0] == "sl" or (isinstance(el, tuple) and el and el[0] == "sl"):
                    s = self._slice(("hole",), el[1])
                    if s == ("hole",):
                        s = ("slice", s, ("int", 0), ("end",))
                    out.append(("sl", s[2], s[3], self.c(v)))
                else:
                    out.append((tuple(self.c(x) if isinstance(x, T) else x for x in el), self.c(v)))
            out.sort(key=repr)
            old = self.c(t.a[0])
            out = [x for x in out if not (x[0][:1] == ("f",) and x[1] == ("fld", old, x[0][1]))]    # assigned its own value
            return ("upd", old, tuple(out)) if out else old
        if k == "zeros":
            return ("zeros", self.c(t.a[0]))
        z = zero_test(t.a[0] if k == "not" else t)
        if z is not None:
            r = ("zeros", self.c(z[0]))
            return r if z[1] != (k == "not") else ("not", r)
        if k == "not":
            return ("not", self.c(t.a[0]))
        if k == "is":
            return ("is", self.c(t.a[0]))
        if k == "isv":
            return ("isv", self.c(t.a[0])) + tuple(x if not isinstance(x, T) else self.c(x) for x in t.a[1:])
        if k == "discr":
            return ("discr", self.c(t.a[0]))
        if k == "elem":
            return ("elem", self.c(t.a[0]))
        if k == "iter":
            if not t.a[1]:
                return self.c(t.a[0])
            return self._iter(t)
        if k == "coll":
            src = self.c(t.a[0])
            if len(t.a[1]) == 1:
                return ("call", "seq", (src, self.c(t.a[1][0][1])))
            return ("coll", src, tuple((tuple((self.c(a), v) for a, v in f), self.c(x)) for f, x in t.a[1]))
        if k == "await":
            return ("await", self.c(t.a[0]))
        if k == "fn":
            return ("fn", short(t.a[0]))
        if k == "ref":
            return ("ref", str(t.a[0]))
        if k == "g":
            return ("g", t.a[0])
        if k == "case":
            return ("case", tuple((tuple((self.c(a), v) for a, v in f), self.c(v2)) for f, v2 in t.a[0]))
        return ("?", k, t.h)

    def _iter(self, t):
        import models
        if self.e is None:
            return ("?", "iter", t.h)
        st = self.st.copy() if self.st is not None else St()
        try:
            outs = models.iter_elems(self.e, st, t, (0, "canon"), None)
        except Exception:
            return ("?", "iter", t.h)
        if len(outs) != 1 or not isinstance(outs[0][1], T):
            return ("?", "iter", t.h)
        s, v = outs[0]
        return ("call", "seq", (self.c(t.a[0]), self.c(self.e.snap(s, v))))

    def _slice(self, b, r):
        if r.k == "agg":
            n = short(r.a[0])
            s = field(r, "start")
            e = field(r, "end")
            lo = self.c(s) if s is not None else ("int", 0)
            if n == "RangeFull":
                return b
            if n in ("RangeInclusive", "RangeToInclusive") and e is not None:
                hi = self.c(mk("call", "op:add", (e, kint(1))))
            else:
                hi = self.c(e) if e is not None else ("end",)
            if b[0] == "bytes" and lo[0] == "int" and (hi[0] == "int" or hi == ("end",)):
                h = b[1][2 * lo[1]:]
                return ("bytes", h if hi == ("end",) else b[1][2 * lo[1]:2 * hi[1]])
            return ("slice", b, lo, hi)
        return ("slice", b, self.c(r), ("end",))


def norm_slices(x, lens):
    """`x[a..n]` with n the known length of x is `x[a..]`"""
    if not isinstance(x, tuple):
        return x
    x = tuple(norm_slices(y, lens) for y in x)
    if x and x[0] == "slice" and x[3][0] == "int" and lens.get(x[1]) == x[3][1]:
        return ("slice", x[1], x[2], ("end",))
    if x and x[0] == "sl" and x[2][0] == "int" and x[2][1] == lens.get("sl"):
        return ("sl", x[1], ("end",)) + x[3:]
    return x


def matches(spec, act):
    """structural match, `_` in the specification matches anything"""
    if spec == ("any",):
        return True
    if isinstance(spec, tuple) and isinstance(act, tuple):
        return len(spec) == len(act) and all(matches(a, b) for a, b in zip(spec, act))
    return spec == act


# ------------------------------------------------------------------------------------------------ conditions
CMP = {"lt", "le", "gt", "ge", "eq", "ne"}
IGNORE = {"overflow"}


def zero_test(a):
    """(byte sequence, polarity) if the boolean term a tests whether all bytes are zero"""
    o = opname(a)
    if o == "any" and len(a.a[1]) == 2:
        p = a.a[1][1]
        if p.k == "not" and opname(p.a[0]) == "eq" and any(kval(x) == 0 for x in p.a[0].a[1]):
            return a.a[1][0], False
    if o == "all" and len(a.a[1]) == 2:
        p = a.a[1][1]
        if opname(p) == "eq" and any(kval(x) == 0 for x in p.a[1]):
            return a.a[1][0], True
    if o in ("eq", "ne") and len(a.a[1]) == 2:
        for p, q in (a.a[1], a.a[1][::-1]):
            r = rawval(q)
            if r and set(r) <= {"0"} and (q.k == "agg" or q.k == "k"):
                return unwrapped(p, q), o == "eq"
    return None


class Cond:
    """conjunction of canonical constraints"""

    def __init__(self, cn):
        self.cn = cn
        self.lin = {}      # canonical linear part -> [lo, hi, excluded]
        self.lit = {}      # canonical term -> value or frozenset of excluded values
        self.bad = False
        self.atoms = []

    def _bound(self, f, c, o, signed=False):
        """sum f + c  o  0   (o in le, eq, ne)"""
        items = tuple(sorted(f.items(), key=repr))
        if not items:
            v = {"le": c <= 0, "eq": c == 0, "ne": c != 0}[o]
            self.bad |= not v
            return
        neg = items[0][1] < 0
        key = tuple((a, -n if neg else n) for a, n in items)
        # key + (−c if neg else c)
        nonneg = all(n > 0 for _, n in key)
        b = self.lin.setdefault(key, [0 if nonneg and not signed else None, None, set()])
        if signed and b[0] == 0:
            b[0] = None
        if o == "le":
            if neg:   # -key + c <= 0  ->  key >= c
                b[0] = c if b[0] is None else max(b[0], c)
            else:     # key <= -c
                b[1] = -c if b[1] is None else min(b[1], -c)
        else:
            v = c if neg else -c
            if o == "eq":
                b[0] = v if b[0] is None else max(b[0], v)
                b[1] = v if b[1] is None else min(b[1], v)
            else:
                b[2].add(v)
        while b[0] is not None and b[0] in b[2]:
            b[0] += 1
        while b[1] is not None and b[1] in b[2]:
            b[1] -= 1
        if b[0] is not None and b[1] is not None and b[0] > b[1]:
            self.bad = True

    def add(self, a, v):
        cn = self.cn
        if a.k == "not":
            return self.add(a.a[0], (not v) if isinstance(v, bool) else v)
        o = opname(a) if a.k == "call" else None
        if o in IGNORE:
            return
        if a.k == "is" and opname(a.a[0]) == "strip_prefix" and v in ("Some", "None"):
            return self._lit(("call", "starts_with", tuple(cn.c(x) for x in a.a[0].a[1])), v == "Some")
        z = zero_test(a)
        if z is not None and isinstance(v, bool):
            return self._lit(("zeros", cn.c(z[0])), v == z[1])
        if o in CMP and len(a.a[1]) == 2 and v in (True, False) and isinstance(v, bool):
            x, y = a.a[1]
            cx, cy = cn.c(x), cn.c(y)
            if self._arith(cx) and self._arith(cy):
                self.atoms.append(("cmp", cx, cy))
                if o in ("gt", "ge"):
                    x, y, o = y, x, {"gt": "lt", "ge": "le"}[o]
                if not v:
                    if o in ("lt", "le"):
                        x, y, o = y, x, {"lt": "le", "le": "lt"}[o]
                    else:
                        o = {"eq": "ne", "ne": "eq"}[o]
                (fx, c1), (fy, c2) = cn._lin(x), cn._lin(y)
                f = dict(fx)
                for t, n in fy.items():
                    f[t] = f.get(t, 0) - n
                f = {t: n for t, n in f.items() if n}
                c = c1 - c2
                if o == "lt":
                    o, c = "le", c + 1
                return self._bound(f, c, o, any(q[0] == "int" and isinstance(q[1], int) and q[1] < 0 for q in (cx, cy)))
            if o == "ne":
                o, v = "eq", not v
            return self._lit(("call", o, tuple(sorted((cx, cy), key=repr))) if o == "eq" else ("call", o, (cx, cy)), v)
        if o == "is_empty" and len(a.a[1]) == 1:
            f = {cn.c(mk("call", "len", (a.a[1][0],))): 1}
            self.atoms.append(list(f)[0])
            return self._bound(f, 0, "eq" if v else "ne")
        if o == "is_zero" and len(a.a[1]) == 1:
            return self.add(mk("call", "eq", (a.a[1][0], kint(0))), v)
        if isinstance(v, int) and not isinstance(v, bool) and a.k not in ("is", "discr"):
            f, c = cn._lin(a)
            self.atoms.append(cn.c(a))
            return self._bound(f, c - v, "eq", v < 0)
        if isinstance(v, frozenset) and a.k != "is" and all(isinstance(x, int) for x in v):
            f, c = cn._lin(a)
            self.atoms.append(cn.c(a))
            for x in v:
                self._bound(f, c - x, "ne", x < 0)
            return
        self._lit(cn.c(a), v)

    def _arith(self, c):
        return c[0] not in ("bytes", "str", "agg", "upd", "bool")

    def _lit(self, c, v):
        self.atoms.append(c)
        if isinstance(v, frozenset) and len(v) == 1:
            v = {"Some": "None", "None": "Some", "Ok": "Err", "Err": "Ok"}.get(list(v)[0], v)
        if c == ("bool", True) or c == ("bool", False):
            self.bad |= (c[1] != v)
            return
        old = self.lit.get(c)
        if old is None:
            self.lit[c] = v
        elif isinstance(v, frozenset) and isinstance(old, frozenset):
            self.lit[c] = old | v
        elif isinstance(v, frozenset):
            self.bad |= old in v
        elif isinstance(old, frozenset):
            self.bad |= v in old
            self.lit[c] = v
        elif old != v:
            self.bad = True

    def both(self, o):
        """the two conditions can hold together (as far as this theory sees)"""
        if self.bad or o.bad:
            return False
        for k, (lo, hi, ex) in self.lin.items():
            if k in o.lin:
                l2, h2, e2 = o.lin[k]
                los = [x for x in (lo, l2) if x is not None]
                his = [x for x in (hi, h2) if x is not None]
                if los and his:
                    l, h = max(los), min(his)
                    e = ex | e2
                    while l in e:
                        l += 1
                    while h in e:
                        h -= 1
                    if l > h:
                        return False
        for k, v in self.lit.items():
            if k in o.lit:
                w = o.lit[k]
                if isinstance(v, frozenset) and isinstance(w, frozenset):
                    continue
                if isinstance(v, frozenset):
                    if w in v:
                        return False
                elif isinstance(w, frozenset):
                    if v in w:
                        return False
                elif v != w:
                    return False
        return True

    def subst(self):
        """atoms pinned to a constant"""
        out = {}
        for k, (lo, hi, ex) in self.lin.items():
            if lo is not None and lo == hi and len(k) == 1 and k[0][1] == 1:
                out[k[0][0]] = ("int", lo)
        return out


def subst(x, m):
    if not m or not isinstance(x, tuple):
        return x
    if x in m:
        return m[x]
    y = tuple(subst(a, m) for a in x)
    if y != x and y and y[0] == "lin":
        f, c = {}, y[2]
        for a, n in y[1]:
            if a[0] == "int":
                c += n * a[1]
            elif a[0] == "lin":
                for b, k in a[1]:
                    f[b] = f.get(b, 0) + n * k
                c += n * a[2]
            else:
                f[a] = f.get(a, 0) + n
        f = {a: n for a, n in f.items() if n}
        if not f:
            return ("int", c)
        if c == 0 and list(f.values()) == [1]:
            return list(f)[0]
        return ("lin", tuple(sorted(f.items(), key=repr)), c)
    if y != x and y and y[0] == "call":
        a = y[2]
        if y[1] in ("div", "rem", "mul") and len(a) == 2:
            if y[1] == "mul" and ("int", 0) in a:
                return ("int", 0)
            if y[1] == "mul" and ("int", 1) in a:
                return a[1] if a[0] == ("int", 1) else a[0]
            if y[1] in ("div", "rem") and a[0] == ("int", 0):
                return ("int", 0)
            if y[1] == "div" and a[1] == ("int", 1):
                return a[0]
            if y[1] == "rem" and a[1] == ("int", 1):
                return ("int", 0)
    return y


#: operators whose meaning the comparison knows: using one of them in the wrong place is a violation, anything else is
#: "no verdict"
KNOWN = set("""add sub mul div rem shr shl min max lt le gt ge eq ne len slice at get is_empty is_zero
checked_add checked_sub checked_mul checked_div checked_rem checked_pow saturating_add saturating_sub saturating_mul
wrapping_add wrapping_sub wrapping_mul overflowing_add overflowing_sub pow abs_diff inc dec
from_be_bytes to_be_bytes from_le_bytes to_le_bytes to_bytes_be to_bytes_le from_bytes_be from_bytes_le from_ne_bytes
to_ne_bytes leading_zeros trailing_zeros count_ones cmp partial_cmp reverse bitand bitor bitxor not and or
as_u8 as_u16 as_u32 as_u64 as_u128 as_f64 u8 u16 u32 u64 u128 tag bytes array map bool str null encode decode
contains contains_key contains_alt insert remove first last keys values starts_with strip_prefix trim_start_matches
to_lowercase to_uppercase from_str_hex from_words from_text next_multiple_of div_ceil isqrt
split_l split_r to_ascii_uppercase to_ascii_lowercase hash sha256 from_hex encode_hex decode_to_slice encode_to_slice
hex::encode encode_upper any all ok right_aligned placed left_aligned decoded prefixed seq apply trim trim_start trim_end trim_end_matches trim_matches replace high low into_words is_ascii
eq_ignore_ascii_case ends_with truncate rev repeat swap_bytes reverse_bits wrapping_neg rotate_left rotate_right midpoint wrapping_div rem_euclid div_euclid""".split())


def vocab(x, extra, bad=None):
    """operators outside the vocabulary occurring in canonical term x"""
    bad = set() if bad is None else bad
    if isinstance(x, tuple):
        if x and x[0] == "call" and len(x) == 3 and isinstance(x[1], str):
            if x[1] not in KNOWN and x[1] not in extra:
                bad.add(x[1])
        if x and x[0] == "mutd" and len(x) == 4 and x[2] not in KNOWN and x[2] not in extra:
            bad.add(x[2])
        if x and x[0] in ("?", "kpath", "case", "clo"):
            if x[0] == "case" and x in extra:       # recorded as it is
                return bad
            bad.add(str(x[:2]))
        for y in x:
            if isinstance(y, tuple):
                vocab(y, extra, bad)
    return bad


def ops_of(x, out):
    if isinstance(x, tuple):
        if x and x[0] == "call" and len(x) == 3:
            out.add(x[1])
        if x and x[0] == "mutd" and len(x) == 4:
            out.add(x[2])
        if x and x[0] == "case":
            out.add(x)
        for y in x:
            ops_of(y, out)
    return out


def pp(x):
    if not isinstance(x, tuple) or not x:
        return str(x)
    h = x[0]
    if h in ("int", "bool"):
        return str(x[1])
    if h == "str":
        return repr(x[1])
    if h == "bytes":
        return "0x" + x[1]
    if h == "p":
        return "arg" + x[1]
    if h == "fld":
        return "%s.%s" % (pp(x[1]), x[2])
    if h == "vf":
        return "%s?" % pp(x[1])
    if h == "call":
        return "%s(%s)" % (x[1], ", ".join(pp(y) for y in x[2]))
    if h == "agg":
        return x[1] + ("{%s}" % ", ".join(pp(v) if n.isdigit() else "%s: %s" % (n, pp(v)) for n, v in x[2]) if x[2] else "")
    if h == "lin":
        return " + ".join(("%d*" % n if n != 1 else "") + pp(a) for a, n in x[1]) + (" + %d" % x[2] if x[2] else "")
    if h == "mutd":
        return "%s~%s(%s)" % (pp(x[1]), x[2], ", ".join(pp(y) for y in x[3]))
    if h == "slice":
        return "%s[%s..%s]" % (pp(x[1]), pp(x[2]), "" if x[3] == ("end",) else pp(x[3]))
    if h == "upd":
        return "%s with %s" % (pp(x[1]), ", ".join(map(str, [tuple(pp(z) for z in y) for y in x[2]])))
    return "%s(%s)" % (h, ", ".join(pp(y) for y in x[1:]))


def right_aligned(x, lens=()):
    """rewrite `zeros(n) with {[n-len(b)..n]: b}` to right_aligned(n, b), `left_aligned` for the start"""
    if not isinstance(x, tuple):
        return x
    x = tuple(right_aligned(y, lens) for y in x)
    if x and x[0] == "upd" and x[1][0] == "bytes" and set(x[1][1]) <= {"0"} and len(x[2]) == 1 and x[2][0][0] == "sl":
        n = len(x[1][1]) // 2
        _, lo, hi, b = x[2][0]
        ln = ("call", "len", (b,))
        if hi in (("end",), ("int", n)):
            if lo == ("lin", ((ln, -1),), n) or lens and lo == ("int", n - lens.get(b, n + 1)):
                return ("call", "right_aligned", (("int", n), b))
            if lo == ("int", 0):
                return b            # wholly overwritten
            return ("call", "placed", (("int", n), lo, b))
        if lo == ("int", 0) and hi == ln:
            return ("call", "left_aligned", (("int", n), b))
        return ("call", "placed", (("int", n), lo, hi, b))
    return x


def prefixed(x):
    if not isinstance(x, tuple):
        return x
    x = tuple(prefixed(y) for y in x)
    if x and x[0] == "mutd" and x[2] == "insert_str" and len(x[3]) == 2 and x[3][0] == ("int", 0):
        return ("call", "prefixed", (x[3][1], x[1]))
    if x and x[0] == "call" and x[1] == "fmt" and len(x[2]) == 2 and x[2][0][0] == "str" and x[2][0][1].endswith("\x00{}"):
        return ("call", "prefixed", (("str", x[2][0][1][:-3]), shown(x[2][1])))
    if x and x[0] == "call" and x[1] == "fmt" and len(x[2]) == 2 and x[2][0] == ("str", "{}") and shown(x[2][1]) != x[2][1]:
        return shown(x[2][1])
    if x and x[0] == "mutd" and x[2] == "push_str" and len(x[3]) == 1 and x[1][0] == "str":
        return ("call", "prefixed", (x[1], x[3][0]))
    return x


def shown(x):
    """a text displayed as it is"""
    if x[:2] == ("call", "fmt:display") and len(x[2]) == 1 and x[2][0][:2] in (("call", "encode"), ("call", "hex::encode"), ("call", "encode_hex")):
        return x[2][0]
    return x


def decoded(x):
    if not isinstance(x, tuple):
        return x
    x = tuple(decoded(y) for y in x)
    if x and x[0] == "mutd" and x[2] == "decode_to_slice" and x[1][0] == "bytes":
        return ("call", "decoded", (x[3][0],))
    return x


def flat(x):
    out = [x]
    if isinstance(x, tuple):
        for y in x:
            out += flat(y)
    return out


def normal(x, lens=()):
    return prefixed(decoded(right_aligned(x, lens)))


def lengths(cn, e):
    """canonical byte arrays whose length is known from their type"""
    return {cn.c(k): n for k, n in e.arrlen.items()}


def check_table(ctx, rule, d, spec, erase0=(), lens=None, extra=(), panics=True, keep=None, drop=None, mem=True,
                name=None, post=None, **kw):
    """one obligation per path of function d: its result is the one the specification gives for its condition.
    keep/drop filter facts (on the canonical constraint term) that do not matter, e.g. failures of an output sink"""
    inst = name or short_name(d)
    b = ctx.p.bodies[d]
    names = [str(i) for i in range(b["argc"])]
    kw.setdefault("prim_types", ())
    e = ctx.run(d, tag="spec", argnames=names, exact=True, collapse=False, max_disjuncts=3000, **kw)
    if e.trunc is not None:
        ctx.inconclusive.append("%s %s: %s" % (rule, inst, e.trunc))
        return
    cn = Canon(ctx, erase0)
    lens = lens or {}
    S = []
    allowed = set(extra)
    for cs, v, m in parse_spec(spec):
        c = Cond(cn)
        for a, x in cs:
            c.add(a, x)
        cv = norm_slices(cn.c(v), lens) if v is not None else ("panic",)
        cm = {k: norm_slices(cn.c(x), lens) for k, x in m.items()}
        S.append((c, cv, cm))
        for a in c.atoms:
            ops_of(a, allowed)
        ops_of(cv, allowed)
        for x in cm.values():
            ops_of(x, allowed)
    rows = [(s.facts, v, s, None) for s, v in e.rets]
    if panics:
        for ev in e.events:
            if ev.kind == "panic" and not (ev.args and contains(ev.args[0], lambda x: opname(x) == "overflow")) \
                    and "overflow" not in ev.name:
                rows.append((ev.facts, None, None, ev))
    n = 0
    pending, seen_atoms = [], set()
    for facts, v, s, ev in rows:
        cn.e, cn.st = e, s
        cn.memo = {}
        c = Cond(cn)
        for a, x in facts.items():
            if drop is not None and drop(a, x):
                continue
            c.add(a, x)
        if c.bad:
            continue
        cv = norm_slices(cn.c(e.snap(s, v)), lens) if v is not None else ("panic",)
        cv = normal(cv, lengths(cn, e))
        if post:
            cv = post(cv)
        cm = {}
        if s is not None and mem:
            for k, x in s.mem.items():
                if k[0] == "T" and k[1].k == "p" and x is not k[1]:
                    y = normal(norm_slices(cn.c(e.snap(s, x)), lens), lengths(cn, e))
                    if y != cn.c(k[1]):
                        cm[str(k[1].a[0])] = y
        n += 1
        hits, miss = 0, []
        seen_atoms.update(c.atoms)
        lab = "%s#%d" % (inst, n)
        for sc, sv, sm in S:
            if not c.both(sc):
                continue
            m = c.subst()
            m2 = sc.subst()
            m.update(m2)
            same = matches(subst(sv, m), subst(cv, m)) or matches(sv, cv)
            keys = set(sm) | set(cm)
            same = same and all(
                (k in sm and k in cm and (matches(sm[k], cm[k]) or matches(subst(sm[k], m), subst(cm[k], m)))) or
                (k in sm and sm[k] == ("any",)) for k in keys)
            if same:
                hits += 1
                ctx.ob(rule, lab, True)
                continue
            cbad, vbad = set(), set()
            for a in c.atoms:
                vocab(a, allowed, cbad)
            vocab(cv, allowed, vbad)
            for x in cm.values():
                vocab(x, allowed, vbad)
            what = "under [%s] it yields %s%s, the specification says %s%s" % (
                " and ".join("%s=%s" % (show(a)[:90], x if not isinstance(x, frozenset) else "not " + "/".join(map(str, x)))
                             for a, x in facts.items())[:500], pp(cv)[:250],
                "".join("; arg%s := %s" % (k, pp(x)[:200]) for k, x in cm.items()), pp(sv)[:250],
                "".join("; arg%s := %s" % (k, pp(x)[:200]) for k, x in sm.items()))
            miss.append((cbad, vbad, what))
        if not hits and not miss:
            ctx.inconclusive.append("%s %s: path matches no specification row (%s)" % (rule, inst, pp(cv)[:100]))
        if miss:
            pending.append((lab, hits, miss))
    # a path that depends on a condition outside the vocabulary: it may be a rewriting of a specified condition, unless
    # every specified condition is still tested elsewhere (then it is an additional one), or unless the result
    # is one that no compatible row of the specification allows
    want = set()
    for sc, sv, sm in S:
        want.update(sc.atoms)
    intact = bool(want) and want <= seen_atoms
    for lab, hits, miss in pending:
        for cbad, vbad, what in miss:
            if vbad or (cbad and hits and not intact):
                ctx.inconclusive.append("%s %s: unknown operators %s: %s" % (rule, lab, sorted(cbad | vbad)[:4], what[:300]))
            else:
                ctx.ob(rule, lab, False, "%s: %s" % (inst, what), b["span"])
    return e


def short_name(d):
    return re.sub(r"evm_minter::|evm_rpc_client::|core::\w+::(\w+::)*", "", d)
