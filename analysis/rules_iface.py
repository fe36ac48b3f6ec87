"""C36: the canister's interface, as the type-checked program declares it, serves every client of the published one.

The exported canister methods are found by their symbols; argument and reply types are those of the decode and reply
calls of each method; a type's wire form follows from its definition and its derive attributes (two views: `enc`, what
candid's derive writes; `dec`, what serde's derive reads).  The published interface is analysis/interface.did.
The rule is Candid subtyping without its lossy coercions: what clients may send must be understood in full, what is
replied must be understood by them."""
import os
import re
from facts import REPO

HERE = os.path.dirname(os.path.abspath(__file__))
PRIM = {"candid::types::number::Nat": "nat", "candid::types::number::Int": "int", "u64": "nat64", "u32": "nat32", "u16": "nat16", "u8": "nat8",
        "u128": "nat", "i64": "int64", "i32": "int32", "i128": "int", "bool": "bool", "alloc::string::String": "text", "str": "text", "char": None,
        "ic_principal::Principal": "principal", "candid::types::principal::Principal": "principal", "()": "null", "f64": "float64",
        "candid::types::reserved::Reserved": "reserved", "candid::types::reserved::Empty": "empty",
        "alloc::borrow::Cow<'_, str>": "text"}
BLOB = ("vec", "nat8")
BYTES = ("serde_bytes::bytebuf::ByteBuf", "serde_bytes::bytes::Bytes")
ACCOUNT = ("record", (("owner", "principal"), ("subaccount", ("opt", BLOB))))
EXTERNAL = {"icrc_ledger_types::icrc1::account::Account": ACCOUNT}
# methods that change the books or call other canisters: as queries their effects would be thrown away
EFFECTFUL = {"withdraw_native_token", "withdraw_erc20", "add_erc20_token", "check_new_deposits", "request_scraping_logs", "minter_address",
             "get_canister_status"}


class Unknown(Exception):
    pass


# ------------------------------------------------------------------------------------------- the published interface
def tokens(s):
    s = re.sub(r"//[^\n]*|/\*.*?\*/", " ", s, flags=re.S)
    return re.findall(r'"(?:[^"\\]|\\.)*"|[A-Za-z_][A-Za-z0-9_]*|\d+|->|[{}();:,=.]', s)


class Did:
    def __init__(self, text):
        self.t, self.i = tokens(text), 0
        self.defs, self.methods, self.init = {}, {}, None
        while self.i < len(self.t):
            k = self.next()
            if k == "type":
                n = self.next()
                self.want("=")
                self.defs[n] = self.ty()
                self.want(";")
            elif k == "service":
                self.want(":")
                if self.peek() == "(":
                    self.init = self.args()
                    self.want("->")
                self.want("{")
                while self.peek() != "}":
                    n = self.next().strip('"')
                    self.want(":")
                    a = self.args()
                    self.want("->")
                    r = self.args()
                    q = False
                    while self.peek() not in (";", "}"):
                        q = self.next() == "query" or q
                    if self.peek() == ";":
                        self.next()
                    self.methods[n] = (a, r, q)
                self.want("}")
            elif k not in (";",):
                raise ValueError("interface.did: " + k)

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def next(self):
        self.i += 1
        return self.t[self.i - 1]

    def want(self, x):
        y = self.next()
        if y != x:
            raise ValueError("interface.did: %s for %s" % (y, x))

    def args(self):
        self.want("(")
        out = []
        while self.peek() != ")":
            if self.i + 1 < len(self.t) and self.t[self.i + 1] == ":":
                self.i += 2
            out.append(self.ty())
            if self.peek() == ",":
                self.next()
        self.want(")")
        return out

    def ty(self):
        k = self.next()
        if k in ("opt", "vec"):
            return (k, self.ty())
        if k == "blob":
            return BLOB
        if k in ("record", "variant"):
            self.want("{")
            fs, n = [], 0
            while self.peek() != "}":
                if k == "variant" or self.t[self.i + 1] in (":",):
                    f = self.next().strip('"')
                    t = "null"
                    if self.peek() == ":":
                        self.next()
                        t = self.ty()
                else:
                    f, t = str(n), self.ty()
                n += 1
                fs.append((f, t))
                if self.peek() == ";":
                    self.next()
            self.want("}")
            return (k, tuple(fs))
        return ("ref", k) if k[0].isupper() or k not in ("nat", "nat64", "nat32", "nat16", "nat8", "int", "int64", "int32", "text", "bool", "principal", "null", "reserved", "empty", "float64") else k


# ------------------------------------------------------------------------------------------- the types of the program
def split(s):
    out, d, cur, prev = [], 0, "", ""
    for ch in s:
        if ch in "<([{":
            d += 1
        elif ch in ")]}" or ch == ">" and prev != "-":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
        prev = ch
    if cur.strip():
        out.append(cur.strip())
    return out


def serde(attrs):
    """serde(...) items of derive-helper attributes: [(name, value or None)]"""
    out = []
    for a in attrs or []:
        m = re.match(r"#\[\s*serde\s*\((.*)\)\s*\]$", a.strip(), re.S)
        if m:
            for it in split(m.group(1)):
                k, _, v = it.partition("=")
                k, v = k.strip(), v.strip().strip('"')
                m2 = re.match(r"rename\s*\((.*)\)$", it.strip(), re.S)
                if m2:
                    for y in split(m2.group(1)):
                        a1, _, b1 = y.partition("=")
                        out.append(("rename_" + a1.strip(), b1.strip().strip('"')))
                else:
                    out.append((k, v or None))
    return out


def recase(n, how, variant):
    ws = re.findall(r"[A-Z]?[a-z0-9]+|[A-Z]+(?![a-z])", n) if variant else n.split("_")
    ws = [w.lower() for w in ws if w]
    if how == "camelCase":
        return ws[0] + "".join(w.capitalize() for w in ws[1:])
    if how == "PascalCase":
        return "".join(w.capitalize() for w in ws)
    if how == "snake_case":
        return "_".join(ws)
    if how == "SCREAMING_SNAKE_CASE":
        return "_".join(ws).upper()
    if how == "kebab-case":
        return "-".join(ws)
    if how == "lowercase":
        return n.lower()
    if how == "UPPERCASE":
        return n.upper()
    raise Unknown("rename_all = " + how)


def written(span):
    """whether an impl stands in the source as such (a derived one has the place of its derive attribute)"""
    f, _, n = str(span).partition(":")
    try:
        line = open(os.path.join(REPO, f)).read().split("\n")[int(n.split(":")[0]) - 1]
    except (OSError, ValueError, IndexError):
        return True
    return bool(re.search(r"\bimpl\b", line))


class Types:
    def __init__(self, ctx):
        self.p = ctx.p
        self.memo = {}
        self.hand = {}
        for i in self.p.impls:
            t = i.get("trait") or ""
            if t.endswith("candid::types::CandidType") or t.endswith("serde::de::Deserialize"):
                if not i.get("derived") and written(i.get("span")):
                    self.hand.setdefault(re.sub(r"<.*", "", i["self"]), set()).add("enc" if "CandidType" in t else "dec")

    def wire(self, s, mode):
        s = s.strip()
        while s.startswith("&"):
            s = re.sub(r"^&('\w+ )?(mut )?", "", s).strip()
        if mode == "dec" and s in ("u128", "i128"):
            return "nat below 2^128" if s == "u128" else "int below 2^127"
        if s in PRIM and PRIM[s]:
            return PRIM[s]
        if s in EXTERNAL:
            return EXTERNAL[s]
        if s in BYTES:
            return BLOB
        m = re.match(r"\[(.*?)(; .*)?\]$", s)
        if m:
            return ("vec", self.wire(m.group(1), mode))
        if s.startswith("(") and s.endswith(")"):
            return ("record", tuple((str(i), self.wire(x, mode)) for i, x in enumerate(split(s[1:-1]))))
        m = re.match(r"([\w:]+)<(.*)>$", s)
        if m:
            h, a = m.group(1), [x for x in split(m.group(2)) if not x.startswith("'")]
            l = h.split("::")[-1]
            if h == "core::option::Option":
                return ("opt", self.wire(a[0], mode))
            if h.startswith(("alloc::", "std::")) and l in ("Vec", "BTreeSet", "HashSet", "VecDeque"):
                return ("vec", self.wire(a[0], mode))
            if l in ("Box", "Rc", "Arc", "Cow", "RefCell", "Cell", "Reverse") and h.startswith(("alloc::", "core::")):
                return self.wire(a[0], mode)
            if h == "core::result::Result":
                return ("variant", (("Ok", self.wire(a[0], mode)), ("Err", self.wire(a[1], mode))))
            if h.startswith(("alloc::", "std::")) and l in ("BTreeMap", "HashMap"):
                return ("vec", ("record", (("0", self.wire(a[0], mode)), ("1", self.wire(a[1], mode)))))
            if h.endswith("ByteArray"):
                return BLOB
        if s in self.p.adts:
            if (s, mode) not in self.memo:
                self.memo[(s, mode)] = None
                try:
                    self.memo[(s, mode)] = self.adt(s, mode)
                except Unknown as x:
                    self.memo[(s, mode)] = ("?", "%s (%s)" % (s.split("::")[-1], x))
            return ("def", s, mode)
        return ("?", s)

    def fields(self, fs, cs, mode, attrs=()):
        out = []
        for f in fs:
            at = serde(f.get("attrs"))
            d = dict(at)
            n = f["n"]
            if any(k in ("flatten", "deserialize_with", "getter") or k == "with" and v != "serde_bytes" for k, v in at):
                if mode == "dec" or "flatten" in d:
                    raise Unknown("field " + n)
            if mode == "dec":
                if "skip" in d or "skip_deserializing" in d:
                    continue
                if cs.get("rename_all") and not n.isdigit():
                    n = recase(n, cs["rename_all"], False)
                n = d.get("rename_deserialize", d.get("rename", n))
            else:
                n = d.get("rename_serialize", d.get("rename", n))
            t = BLOB if d.get("with") == "serde_bytes" else self.wire(f["ty"], mode)
            if d.get("with") == "serde_bytes" and f["ty"].startswith("core::option::Option"):
                t = ("opt", BLOB)
            if mode == "dec" and "default" in d:
                t = ("default", t)
            out.append((n, t))
            if mode == "dec":
                out += [(v, t) for k, v in at if k == "alias"]
        return tuple(out)

    def shape(self, v, cs, mode):
        fs = v["fields"]
        if not fs:
            return "null"
        if all(f["n"].isdigit() for f in fs):
            if len(fs) == 1:
                return self.fields(fs, {}, mode)[0][1] if self.fields(fs, {}, mode) else "null"
            return ("record", self.fields(fs, {}, mode))
        return ("record", self.fields(fs, cs, mode))

    def adt(self, s, mode):
        a = self.p.adts[s]
        if mode in self.hand.get(s, ()):
            raise Unknown("hand-written")
        cs = dict(serde(a.get("attrs")))
        for k in cs:
            if k in ("from", "try_from", "into", "tag", "untagged", "content", "remote", "variant_identifier", "field_identifier"):
                if not (mode == "enc" and k in ("from", "try_from", "into", "tag", "untagged", "content")):
                    raise Unknown("serde " + k)
        if a["kind"] == "Enum":
            out = []
            for v in a["variants"]:
                at = serde(v.get("attrs"))
                d = dict(at)
                n = v["n"]
                if mode == "dec":
                    if "skip" in d or "skip_deserializing" in d:
                        continue
                    if cs.get("rename_all"):
                        n = recase(n, cs["rename_all"], True)
                    n = d.get("rename_deserialize", d.get("rename", n))
                    fc = {"rename_all": d.get("rename_all", cs.get("rename_all_fields"))}
                else:
                    n = d.get("rename_serialize", d.get("rename", n))
                    fc = {}
                t = self.shape(v, fc, mode)
                out.append((n, t))
                if mode == "dec":
                    out += [(y, t) for k, y in at if k == "alias"]
            return ("variant", tuple(out))
        if a["kind"] == "Struct":
            return self.shape(a["variants"][0], cs, mode)
        raise Unknown(a["kind"])


# ------------------------------------------------------------------------------------------- subtyping
class Cmp:
    def __init__(self, did, types):
        self.did, self.types, self.seen, self.bad, self.unknown, self.n = did, types, set(), [], [], 0

    def open(self, t):
        for _ in range(20):
            if isinstance(t, tuple) and t[0] == "ref":
                t = self.did.defs[t[1]]
            elif isinstance(t, tuple) and t[0] == "def":
                t = self.types.memo[(t[1], t[2])]
            else:
                break
        return t

    def name(self, t):
        t0 = t
        if isinstance(t, tuple) and t[0] in ("ref", "def"):
            return t[1].split("::")[-1]
        t = self.open(t0)
        if isinstance(t, str):
            return t
        if t == BLOB:
            return "blob"
        if t[0] in ("opt", "vec"):
            return t[0] + " " + self.name(t[1])
        if t[0] == "?":
            return t[1]
        return "%s { %s }" % (t[0], "; ".join(f for f, _ in t[1])) if t[0] in ("record", "variant") else t[0]

    def sub(self, a, b, path, lenient):
        """every value of a is read as itself by a reader of b; lenient: a reader may ignore fields it does not know (replies)"""
        if (a, b, lenient) in self.seen:
            return
        self.seen.add((a, b, lenient))
        self.n += 1
        x, y = self.open(a), self.open(b)
        if isinstance(y, tuple) and y[0] == "default":
            y = self.open(y[1])
        if isinstance(x, tuple) and x[0] == "default":
            x = self.open(x[1])
        for z, o in ((x, b), (y, a)):
            if isinstance(z, tuple) and z[0] == "?":
                if not (isinstance(o, tuple) and o[0] == "ref" and o[1] == z[1].split("::")[-1] and "(" not in z[1]):
                    self.unknown.append("%s: %s" % (path, z[1]))
                return
        if isinstance(x, str) or isinstance(y, str):
            if x != y and y != "reserved" and x != "empty" and not (x == "nat" and y == "int"):
                self.bad.append((path, "%s where %s is agreed" % (self.name(a), self.name(b))))
            return
        if x[0] != y[0]:
            if y[0] == "opt":           # a value is read as a present optional
                return self.sub(a, y[1], path, lenient)
            self.bad.append((path, "%s where %s is agreed" % (self.name(a), self.name(b))))
            return
        if x[0] in ("opt", "vec"):
            return self.sub(x[1], y[1], path, lenient)
        fx, fy = dict(x[1]), dict(y[1])
        if x[0] == "record":
            for f, t in y[1]:
                if f in fx:
                    self.sub(fx[f], t, path + "." + f, lenient)
                else:
                    u = self.open(t)
                    if not lenient and (u == "null" or u == "reserved" or isinstance(u, tuple) and u[0] in ("opt", "default")):
                        continue        # a new optional argument
                    if isinstance(u, tuple) and u[0] == "?":
                        self.unknown.append("%s.%s: %s" % (path, f, u[1]))
                        continue
                    self.bad.append((path, "field %s is missing" % f))
            if not lenient:
                for f, t in x[1]:
                    if f not in fy:
                        self.bad.append((path, "field %s, which callers send, is not read" % f))
        else:
            for f, t in x[1]:
                if f in fy:
                    self.sub(t, fy[f], path + "." + f, lenient)
                else:
                    self.bad.append((path, "case %s is not understood" % f))


def calls(ctx, d):
    for n, b in ctx.p.bodies.items():
        if n == d or n.startswith(d + "::{"):
            for bl in b["blocks"]:
                te = (bl or {}).get("te") or {}
                f = ((te.get("f") or {}).get("k") or {}).get("fn")
                if te.get("t") == "call" and f:
                    yield f


def tuple_of(s):
    return split(s[1:-1])


def exports(ctx):
    out = {}
    for d, b in ctx.p.bodies.items():
        m = re.match(r"canister_(update|query|composite_query|init|post_upgrade)[. ]?(\w*)$", b.get("export") or "")
        if not m:
            continue
        a = r = None
        for f in calls(ctx, d):
            if f["def"].endswith("call::arg_data"):
                a = tuple_of(f["args"][-1])
            if f["def"].endswith("call::reply"):
                r = tuple_of(f["args"][-1])
        out[(m.group(2) or m.group(1))] = (m.group(1), a, r, b["span"])
    return out


def report(ctx, rule, lab, c, span, what):
    for p, m in c.bad:
        ctx.ob(rule, lab + p, False, "%s: %s%s: %s" % (what, lab, p, m), span)
    for m in c.unknown:
        ctx.inconclusive.append("%s %s%s" % (rule, lab, m))
    if not c.bad:
        ctx.ob(rule, lab, True)


def check_C36(ctx):
    did = Did(open(os.path.join(HERE, "interface.did")).read())
    types = Types(ctx)
    ex = exports(ctx)
    if not ex:
        ctx.inconclusive.append("C36: no exported canister methods found")
        return
    for n, (da, dr, q) in sorted(did.methods.items()):
        if n not in ex:
            ctx.ob("C36.method", n, False, "the published method %s is not exported" % n, "minter/src/main.rs:1")
            continue
        kind, a, r, span = ex[n]
        ok = (kind == "query") if q else (kind == "update" or kind == "query" and n not in EFFECTFUL)
        ctx.ob("C36.kind", n, ok, "%s is published as %s but exported as %s" % (n, "a query" if q else "an update", kind), span)
        if a is None or r is None:
            ctx.inconclusive.append("C36: %s: how it decodes or replies was not found" % n)
            continue
        c = Cmp(did, types)
        if len(a) < len(da):
            c.bad.append(("", "takes %d of %d arguments" % (len(a), len(da))))
        for i, t in enumerate(da[:len(a)]):
            c.sub(t, types.wire(a[i], "dec"), "(%d)" % i, False)
        for i, t in enumerate(a[len(da):]):
            if not t.startswith("core::option::Option<"):
                c.bad.append(("(%d)" % (i + len(da)), "an argument that callers do not send"))
        report(ctx, "C36.arguments", n, c, span, "a published call is not understood")
        c = Cmp(did, types)
        if len(r) < len(dr):
            c.bad.append(("", "replies %d of %d values" % (len(r), len(dr))))
        for i, t in enumerate(dr[:len(r)]):
            c.sub(types.wire(r[i], "enc"), t, "(%d)" % i, True)
        report(ctx, "C36.reply", n, c, span, "a reply is not what is published")
    for n in ("init", "post_upgrade"):
        if n in ex and ex[n][1] is not None and did.init:
            c = Cmp(did, types)
            t = types.wire(ex[n][1][0], "dec") if ex[n][1] else None
            if t is None:
                c.bad.append(("", "takes no argument"))
            else:
                c.sub(did.init[0] if n == "init" else did.init[0], t, "", False)
            report(ctx, "C36.arguments", n, c, ex[n][3], "the published installation argument is not understood")
        else:
            ctx.inconclusive.append("C36: %s not found" % n)


LSM = Did("""
type Suite = record { symbol : text; ledger : principal; ledger_wasm_hash : text; index : principal; index_wasm_hash : text; archives : vec principal; chain_id : nat };
type Refusal = variant { WasmHashError; TokenAlreadyManaged; AlreadyManagedPrincipals };
type Answer = variant { Ok; Err : Refusal };
service : { add_native_ls : (Suite) -> (Answer); }
""")


def check_lsm(ctx):
    """C34: the announcement is written in the form the manager reads, and its answer is read in the form it is written"""
    types = Types(ctx)
    n = 0
    for d, b in ctx.p.bodies.items():
        if not d.startswith("evm_minter::lsm_client::") or "::{" in d:
            continue
        for f in calls(ctx, d):
            a = [x for x in f["args"] if isinstance(x, str)]
            if len(a) != 2 or not re.search(r"::call\w*$", f["def"]) or any(re.search(r"(?<![\w:])[A-Z]\w*(?![\w:])", x) for x in a):
                continue
            n += 1
            arg, rep = (tuple_of(x)[0] if x.startswith("(") and x.endswith(",)") else x for x in a)
            c = Cmp(LSM, types)
            c.sub(types.wire(arg, "enc"), ("ref", "Suite"), "", True)
            c.sub(("ref", "Answer"), types.wire(rep, "dec"), "", False)
            report(ctx, "C34.wire", d.split("::")[-1], c, b["span"], "the ledger suite manager is not spoken to in its interface")
    if not n:
        ctx.inconclusive.append("C34.wire: call to the manager not found")
