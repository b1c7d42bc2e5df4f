"""Clara syntax trees: rendering to source text and flattening to the JSON form ClaraCore.tla reads.

Types are tuples: ("int",) ("bool",) ("string",) ("bytes",) ("nothing",) ("arr", t)
("st", name, (args)) ("en", name, (args)) ("fn", (params), ret) ("par", name).
Expressions and statements are N objects with a kind k, a static type t and attributes.
"""
INT = ("int",); BOOL = ("bool",); STRING = ("string",); BYTES = ("bytes",); NOTHING = ("nothing",)
BUF = ("st", "byteBuffer", ())


def ARR(t): return ("arr", t)
def FN(ps, r): return ("fn", tuple(ps), r)
def ST(n, *a): return ("st", n, tuple(a))
def EN(n, *a): return ("en", n, tuple(a))
def PAR(n): return ("par", n)


class N:
    def __init__(self, k, t=None, **kw):
        self.k = k
        self.t = t
        self.__dict__.update(kw)

    def __repr__(self):
        return "N(%s)" % ", ".join("%s=%r" % i for i in self.__dict__.items())


def subst(t, b):
    if t[0] == "par":
        return b.get(t[1], t)
    if t[0] == "arr":
        return ARR(subst(t[1], b))
    if t[0] in ("st", "en"):
        return (t[0], t[1], tuple(subst(x, b) for x in t[2]))
    if t[0] == "fn":
        return ("fn", tuple(subst(x, b) for x in t[1]), subst(t[2], b))
    return t


# ------------------------------------------------------------------------------------------ expressions
def lit(v, **kw): return N("int", INT, v=v, **kw)
def true(): return N("bool", BOOL, v=True)
def false(): return N("bool", BOOL, v=False)
def blit(v): return N("bool", BOOL, v=bool(v))
def slit(v):
    """string literal; v is str or bytes"""
    return N("str", STRING, v=v if isinstance(v, bytes) else v.encode())


def var(n, t): return N("var", t, n=n)
def un(op, a): return N("un", BOOL if op == "not" else INT, op=op, a=a)
CMP = ("==", "<", "<=", ">", ">=")
def bin_(op, a, b): return N("bin", BOOL if op in CMP or op in ("and", "or") else INT, op=op, a=a, b=b)
def tern(c, a, b): return N("tern", a.t, c=c, a=a, b=b)
def call(f, args, t, targs=()): return N("call", t, f=f, as_=list(args), targs=tuple(targs))
def dot(o, f, args, t, targs=()): return N("dot", t, o=o, f=f, as_=list(args), targs=tuple(targs))
def dyn(f, args, t): return N("dyn", t, f=f, as_=list(args))
def fld(o, f, t): return N("fld", t, o=o, f=f)
def idx(a, i): return N("idx", a.t[1], a=a, i=i)
def arr(es): return N("arr", ARR(es[0].t), es=list(es))
def lam(params, ret, body=None, expr=None):
    """params: [(name, type)]"""
    return N("lam", FN([p[1] for p in params], ret), params=params, ret=ret, body=body, expr=expr)


# ------------------------------------------------------------------------------------------ statements
def expr(e): return N("expr", e=e)
def das(n, e): return N("das", n=n, e=e)
def as_(t, e): return N("as", tgt=t, e=e)
def if_(pairs, els=None): return N("if", pairs=pairs, els=els)
def while_(c, body): return N("while", c=c, body=body)
def range_(n, a, b, body): return N("range", n=n, a=a, b=b, body=body)
def each(n, a, body): return N("each", n=n, a=a, body=body)
def match(e, cases): return N("match", e=e, cases=cases)      # cases: [(ctor, [vars], [stmts])]
def ret(e=None): return N("ret", e=e)
def out(e): return expr(call("println", [e], NOTHING))


# ------------------------------------------------------------------------------------------ declarations
class Fn:
    def __init__(self, name, params, ret=NOTHING, body=None, expr=None, tparams=(), extern=False, attr=None):
        self.name, self.params, self.ret, self.body, self.expr = name, params, ret, body, expr
        self.tparams, self.extern, self.attr = tuple(tparams), extern, attr


class Struct:
    def __init__(self, name, fields, tparams=()):
        self.name, self.fields, self.tparams = name, fields, tuple(tparams)

    @property
    def cons(self):
        return self.name[0].upper() + self.name[1:]


class Enum:
    def __init__(self, name, cases, tparams=()):
        self.name, self.cases, self.tparams = name, cases, tuple(tparams)      # [(ctor, [(n, t)])]


class Prog:
    def __init__(self):
        self.decls = []      # in file order

    def add(self, d):
        self.decls.append(d)
        return d


# ------------------------------------------------------------------------------------------ rendering
PREC = {"*": 10, "/": 10, "+": 9, "-": 9, "<<": 8, ">>": 8, ">": 7, ">=": 7, "<": 7, "<=": 7, "==": 6,
        "&": 5, "^": 4, "|": 3, "and": 2, "or": 1}
KEYWORDS = {"fn", "return", "if", "elseif", "else", "true", "false", "not", "and", "or", "struct", "while", "for",
            "in", "enum", "match", "case", "type"}


def type_toks(t):
    k = t[0]
    if k == "arr":
        return ["[", "]"] + type_toks(t[1])
    if k in ("st", "en"):
        return [t[1]] + targ_toks(t[2])
    if k == "fn":
        r = ["fn", "("]
        for i, p in enumerate(t[1]):
            r += ([","] if i else []) + type_toks(p)
        return r + [")"] + type_toks(t[2])
    if k == "par":
        return [t[1]]
    return [k]


def targ_toks(ts):
    if not ts:
        return []
    r = ["«"]
    for i, p in enumerate(ts):
        r += ([","] if i else []) + type_toks(p)
    return r + ["»"]


def string_tok(bs):
    r = bytearray(b'"')
    for c in bs:
        if c == 10: r += b"\\n"
        elif c == 13: r += b"\\r"
        elif c == 34: r += b'\\"'
        elif c == 92: r += b"\\\\"
        else: r.append(c)
    return bytes(r + b'"')


class Render:
    """Turns trees into token lists.  `paren(node)` may ask for redundant parentheses."""

    def __init__(self, paren=None, flat=False):
        self.paren = paren
        self.flat = flat

    def int_toks(self, n):
        txt = getattr(n, "txt", None)
        if txt is not None:
            return ["-", txt[1:]] if txt.startswith("-") else [txt]
        return ["-", str(-n.v)] if n.v < 0 else [str(n.v)]

    def prec(self, n):
        if n.k == "bin": return PREC[n.op]
        if n.k == "un": return 11
        if n.k == "tern": return 0.5
        if n.k == "int" and self.int_toks(n)[0] == "-": return 11
        if n.k == "lam": return 0.5 if n.expr is not None else 13
        return 13

    def e(self, n, p=0):
        """tokens of n in a context that needs precedence > p"""
        ts = self.raw(n)
        if self.prec(n) <= p or (self.paren and self.paren(n)):
            ts = ["("] + ts + [")"]
        return ts

    def base(self, n):
        """n as the receiver of a postfix operator"""
        if n.k in ("var", "call", "dot", "fld", "idx", "dyn", "arr", "str") or (n.k == "int" and self.prec(n) == 13):
            ts = self.raw(n)
            if self.paren and n.k not in ("arr",) and self.paren(n):
                ts = ["("] + ts + [")"]
            return ts
        return ["("] + self.raw(n) + [")"]

    def args(self, as_):
        r = ["("]
        for i, a in enumerate(as_):
            r += ([","] if i else []) + self.e(a)
        return r + [")"]

    def params(self, ps):
        r = ["("]
        for i, (n, t) in enumerate(ps):
            r += ([","] if i else []) + [n, ":"] + type_toks(t)
        return r + [")"]

    def raw(self, n):
        k = n.k
        if k == "int": return self.int_toks(n)
        if k == "bool": return ["true" if n.v else "false"]
        if k == "str": return [string_tok(n.v)]
        if k == "var": return [n.n]
        if k == "un": return [n.op] + self.e(n.a, 10.5)
        if k == "bin":
            p = PREC[n.op]
            return self.e(n.a, p - 0.5) + [n.op] + self.e(n.b, p)
        if k == "tern":
            return self.e(n.c, 0.9) + ["?"] + self.e(n.a) + [":"] + self.e(n.b)
        if k == "call":
            return [n.f] + targ_toks(n.targs) + self.args(n.as_)
        if k == "dot":
            return self.base(n.o) + [".", n.f] + targ_toks(n.targs) + self.args(n.as_)
        if k == "dyn":
            f = n.f
            if f.k == "lam" and f.expr is None:
                return self.raw(f) + self.args(n.as_)
            if f.k == "dot" or f.k == "fld" or (f.k == "dyn" and f.f.k == "dot"):
                return ["("] + self.raw(f) + [")"] + self.args(n.as_)
            return self.base(f) + self.args(n.as_)
        if k == "fld": return self.base(n.o) + [".", n.f]
        if k == "idx": return self.base(n.a) + ["["] + self.e(n.i) + ["]"]
        if k == "arr":
            r = ["["]
            for i, a in enumerate(n.es):
                r += ([","] if i else []) + self.e(a)
            return r + ["]"]
        if k == "lam":
            r = ["fn"] + self.params(n.params) + (type_toks(n.ret) if n.ret != NOTHING else [])
            return r + (["="] + self.e(n.expr) if n.expr is not None else self.block(n.body))
        raise Exception(k)

    def block(self, ss):
        r = ["{", NEWLINE]
        for s in ss:
            r += self.s(s) + [NEWLINE]
        return r + ["}"]

    def first(self, n):
        """an expression a statement begins with: no redundant parentheses there, they would join the previous statement"""
        ts = self.raw(n)
        if ts[0] == "(" and self.paren:
            q, self.paren = self.paren, None
            ts = self.raw(n)
            self.paren = q
        return ts

    def s(self, n):
        k = n.k
        if k == "expr": return self.first(n.e)
        if k == "das": return [n.n, ":="] + self.e(n.e)
        if k == "as": return self.first(n.tgt) + ["="] + self.e(n.e)
        if k == "if":
            r = []
            for i, (c, b) in enumerate(n.pairs):
                r += ["if" if i == 0 else "elseif"] + self.e(c) + self.block(b)
            if n.els is not None:
                r += ["else"] + self.block(n.els)
            return r
        if k == "while": return ["while"] + self.e(n.c) + self.block(n.body)
        if k == "range": return ["for", n.n, "in"] + self.e(n.a) + [".."] + self.e(n.b) + self.block(n.body)
        if k == "each": return ["for", n.n, "in"] + self.e(n.a) + self.block(n.body)
        if k == "match":
            r = ["match"] + self.e(n.e) + ["{", NEWLINE]
            for c, vs, b in n.cases:
                r += ["case", c, "("]
                for i, v in enumerate(vs):
                    r += ([","] if i else []) + [v]
                r += [")", ":", NEWLINE]
                for s in b:
                    r += self.s(s) + [NEWLINE]
            return r + ["}"]
        if k == "ret": return ["return"] + (self.e(n.e) if n.e is not None else [])
        if k == "raw": return list(n.toks)
        raise Exception(k)

    def decl(self, d):
        if isinstance(d, Struct):
            r = ["struct", d.name] + targ_toks([PAR(p) for p in d.tparams]) + ["{", NEWLINE]
            for n, t in d.fields:
                r += [n, ":"] + type_toks(t) + [NEWLINE]
            return r + ["}", NEWLINE]
        if isinstance(d, Enum):
            r = ["enum", d.name] + targ_toks([PAR(p) for p in d.tparams]) + ["{", NEWLINE]
            for n, ps in d.cases:
                r += [n] + self.params(ps) + [NEWLINE]
            return r + ["}", NEWLINE]
        r = []
        if d.attr:
            r += ["#", "[", d.attr, "]", NEWLINE]
        r += ["fn", d.name] + targ_toks([PAR(p) for p in d.tparams]) + self.params(d.params)
        if d.ret != NOTHING or d.extern:
            r += type_toks(d.ret)
        if d.extern:
            return r + [NEWLINE]
        if d.expr is not None:
            return r + ["="] + self.e(d.expr) + [NEWLINE]
        return r + self.block(d.body) + [NEWLINE]

    def prog(self, p):
        r = []
        for d in p.decls:
            r += self.decl(d)
        return r


class _NL:
    def __repr__(self): return "NL"


NEWLINE = _NL()
_JOIN = {(":", "="), (".", "."), ("<", "<"), ("<", "="), (">", ">"), (">", "="), ("=", "="), ("/", "/"), (":", "==")}


def _wordy(c):
    return c.isalnum() or c == "_" or ord(c) > 127


def need_space(a, b):
    """would tokens a and b (str) fuse or change if written without a space?"""
    if isinstance(a, bytes) or isinstance(b, bytes):
        return False
    if a in ("«", "»") or b in ("«", "»"):
        return False
    if _wordy(a[-1]) and _wordy(b[0]):
        return True
    return (a[-1], b[0]) in {(":", "="), (".", "."), ("<", "<"), ("<", "="), (">", ">"), (">", "="), ("=", "="), ("/", "/")}


COMMENTS = [b"note", b"fn main() {", b"\"", b"}", "é « »".encode(), b"x := 1", b"", b"\\", b"C:\\dir\\", b"a \\ b", b"\"open", b"\"done\" \\", b"// again", b"/* not a block", b"*/", b"/", b"'", b"{", b"return", b"#[RawValues]", b"@ $ ` ;", b"\\n",
            "日本語\u2028".encode(), b"\xff\xfe\x80", b"\t tab", b"0x", b"case A():", b"else {", b"elseif", b"\x01\x7f", b"x" * 300]


def layout(toks, rng=None, mode="pretty"):
    """mode pretty | dense | wild -> bytes"""
    r = bytearray()
    prev = None
    indent = 0
    tight_before = {",", ")", "]", ".", "(", "[", "«", "»", ":"}
    tight_after = {"(", "[", ".", "«", "#", "~"}
    bol = True
    for t in toks:
        if t is NEWLINE:
            if mode == "pretty":
                r += b"\n"
                bol = True
                prev = None
            continue
        tb = t if isinstance(t, bytes) else t.encode()
        if mode == "pretty":
            if t == "}":
                indent -= 1
            if bol:
                r += b"    " * max(indent, 0)
            elif prev is not None:
                if need_space(prev, t) or not (t in tight_before or prev in tight_after):
                    r += b" "
            if t == "{":
                indent += 1
            bol = False
        elif mode == "dense":
            if prev is not None and need_space(prev, t):
                r += b" "
        else:
            x = rng.random()
            if x < 0.06:
                r += b" // " + rng.choice(COMMENTS) + rng.choice([b"\n", b"\n", b"\n", b"\r\n"])
            elif x < 0.16:
                r += rng.choice([b"\n", b"\r\n", b"\n\n", b"\n   ", b"\r"])
            elif x < 0.45:
                r += rng.choice([b" ", b"  ", b"     "])
            elif prev is not None and need_space(prev, t):
                r += b" "
        r += tb
        prev = t
    r += b"\n"
    return bytes(r)


def source(prog, rng=None, mode="pretty", paren=None):
    return layout(Render(paren).prog(prog), rng, mode)


# ------------------------------------------------------------------------------------------ JSON
def small(v): return -(1 << 27) <= v < (1 << 27)


def jint(v):
    v &= (1 << 63) - 1
    s = v - (1 << 63) if v >> 62 else v
    if small(s):
        return ["i", s]
    return ["w", [(v >> (9 * i)) & 511 for i in range(7)]]


def jt(t):
    k = t[0]
    if k == "arr": return ["arr", jt(t[1])]
    if k in ("st", "en"): return [k, t[1], [jt(x) for x in t[2]]]
    if k == "fn": return ["fn", [jt(x) for x in t[1]], jt(t[2])]
    return list(t)


def mentions(n):
    """the names that occur in a function value"""
    out = set()

    def walk(x):
        if isinstance(x, N):
            if x.k == "var": out.add(x.n)
            elif x.k in ("call", "dot"): out.add(x.f)
            for v in x.__dict__.values():
                if isinstance(v, (N, list, tuple)): walk(v)
        elif isinstance(x, (list, tuple)):
            for y in x: walk(y)
    walk([n.body, n.expr])
    return sorted(out)


class Flatten:
    def __init__(self, flat=False):
        self.nodes = []
        self.flat = flat          # operator trees as flat token sequences: the specification parses them

    def add(self, **kw):
        self.nodes.append(kw)
        return len(self.nodes)

    def reserve(self):
        self.nodes.append(None)
        return len(self.nodes)

    def toks(self, n, p, r, out):
        """the same parentheses as Render puts"""
        if n.k not in ("bin", "un"):
            if n.k == "int" and r.int_toks(n)[0] == "-":
                if 11 <= p: out.append(["("])
                out.append(["u", "-"]); out.append(["e", self.lit(r.int_toks(n)[1])])
                if 11 <= p: out.append([")"])
            else:
                out.append(["e", self.e(n)])
            return
        par = r.prec(n) <= p
        if par: out.append(["("])
        if n.k == "un":
            out.append(["u", n.op]); self.toks(n.a, 10.5, r, out)
        else:
            q = PREC[n.op]
            self.toks(n.a, q - 0.5, r, out); out.append(["o", n.op]); self.toks(n.b, q, r, out)
        if par: out.append([")"])

    def lit(self, txt):
        if txt.startswith("0x"):
            return self.add(k="hex", d=[int(c, 16) for c in txt[2:]])
        return self.add(k="dec", d=[int(c) for c in txt])

    def e(self, n, et=None):
        k = n.k
        if self.flat and (k in ("bin", "un") or (k == "int" and Render().int_toks(n)[0] == "-")):
            ts = []
            self.toks(n, 0, Render(), ts)
            return self.add(k="flat", ts=ts)
        if k == "int":
            txt = getattr(n, "txt", None)
            if self.flat or txt is not None and not txt.startswith("-"):
                return self.lit(Render().int_toks(n)[0])
            return self.add(k="val", v=jint(n.v))
        if k == "bool": return self.add(k="val", v=["b", n.v])
        if k == "str": return self.add(k="val", v=["s", list(n.v)])
        if k == "var": return self.add(k="var", n=n.n, et=jt(et or n.t or NOTHING))
        if k == "un": return self.add(k="un", op=n.op, a=self.e(n.a))
        if k == "bin": return self.add(k="bin", op=n.op, a=self.e(n.a), b=self.e(n.b))
        if k == "tern": return self.add(k="tern", c=self.e(n.c), a=self.e(n.a), b=self.e(n.b))
        if k == "call":
            return self.add(k="call", f=n.f, as_=[self.e(a) for a in n.as_], ts=[jt(a.t) for a in n.as_])
        if k == "dot":
            return self.add(k="dot", f=n.f, o=self.e(n.o), ot=jt(n.o.t), as_=[self.e(a) for a in n.as_],
                            ts=[jt(n.o.t)] + [jt(a.t) for a in n.as_])
        if k == "dyn": return self.add(k="dyn", f=self.e(n.f), as_=[self.e(a) for a in n.as_])
        if k == "fld": return self.add(k="fld", o=self.e(n.o), f=n.f)
        if k == "idx": return self.add(k="idx", a=self.e(n.a), i=self.e(n.i))
        if k == "arr": return self.add(k="arr", es=[self.e(a) for a in n.es])
        if k == "lam":
            return self.add(k="lam", params=[p[0] for p in n.params], fv=mentions(n), void=n.ret == NOTHING,
                            expr=self.e(n.expr) if n.expr is not None else 0,
                            body=self.b(n.body) if n.body is not None else [])
        raise Exception(k)

    def b(self, ss): return [self.s(s) for s in ss]

    def s(self, n):
        k = n.k
        if k == "expr": return self.add(k="expr", e=self.e(n.e))
        if k == "das": return self.add(k="das", n=n.n, e=self.e(n.e))
        if k == "as": return self.add(k="as", t=self.e(n.tgt), e=self.e(n.e))
        if k == "if":
            return self.add(k="if", cs=[self.e(c) for c, _ in n.pairs],
                            bs=[self.b(b) for _, b in n.pairs] + [self.b(n.els) if n.els is not None else []],
                            els=n.els is not None)
        if k == "while": return self.add(k="while", c=self.e(n.c), body=self.b(n.body))
        if k == "range":
            down = n.b.k == "int" and Render().int_toks(n.b) == ["0"]
            return self.add(k="range", n=n.n, a=self.e(n.a), b=self.e(n.b), down=down, body=self.b(n.body))
        if k == "each": return self.add(k="each", n=n.n, a=self.e(n.a), body=self.b(n.body))
        if k == "match":
            return self.add(k="match", e=self.e(n.e),
                            cases=[{"c": c, "vs": list(vs), "body": self.b(b)} for c, vs, b in n.cases])
        if k == "ret": return self.add(k="ret", e=self.e(n.e) if n.e is not None else 0)
        raise Exception(k)

    def prog(self, p):
        fns, by, structs = [], {}, {"none$": []}

        def reg(name, rec):
            fns.append(rec)
            by.setdefault(name, []).append(len(fns))
        for d in p.decls:
            if isinstance(d, Struct):
                structs[d.name] = [f[0] for f in d.fields]
                reg(d.cons, dict(kind="struct", of=d.name, ptypes=[jt(f[1]) for f in d.fields],
                                 ret=jt(ST(d.name, *[PAR(x) for x in d.tparams])), params=[], body=[], expr=0, void=False))
            elif isinstance(d, Enum):
                for c, ps in d.cases:
                    reg(c, dict(kind="enum", of=d.name, ptypes=[jt(t) for _, t in ps],
                                ret=jt(EN(d.name, *[PAR(x) for x in d.tparams])), params=[], body=[], expr=0, void=False))
            elif not d.extern:
                reg(d.name, dict(kind="fn", of="", ptypes=[jt(t) for _, t in d.params], ret=jt(d.ret),
                                 params=[n for n, _ in d.params], void=d.ret == NOTHING,
                                 expr=self.e(d.expr) if d.expr is not None else 0,
                                 body=self.b(d.body) if d.body is not None else []))
        nodes = []
        for n in self.nodes:
            n = dict(n)
            if "as_" in n:
                n["as"] = n.pop("as_")
            nodes.append(n)
        return {"nodes": nodes, "fns": fns, "byName": by, "structs": structs}
