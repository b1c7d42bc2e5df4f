"""Reading Clara source text: an independent tokenizer and parser.  Gives the untyped syntax tree ClaraTypes.tla judges, with the
span of tokens of every node, and the token kinds ClaraSyntax.tla reads.  Only for text the check itself has made or for the
standard library; anything else raises SyntaxError_."""
import re

KEYWORDS = {"fn", "return", "if", "elseif", "else", "true", "false", "not", "and", "or", "struct", "while", "for", "in", "enum", "match", "case", "type"}
TOKEN = re.compile(r'(?P<sp>[ \r\n]+)|(?P<com>//[^\n]*)|(?P<int>0x[0-9a-fA-F]+|[0-9]+)|(?P<id>[^\W\d]\w*)|(?P<str>"(?:\\.|[^"\\\n])*")'
                   r'|(?P<op>:=|\.\.|<<|>>|<=|>=|==|[-+*/&|^~<>=(){}\[\],:.#?«»])')


class SyntaxError_(Exception):
    pass


class Tok:
    __slots__ = ("k", "v", "line", "col")

    def __init__(self, k, v, line, col):
        self.k, self.v, self.line, self.col = k, v, line, col

    def __repr__(self): return "%s@%d:%d" % (self.v, self.line, self.col)


def tokenize(text):
    r, i, line, col = [], 0, 1, 1
    while i < len(text):
        m = TOKEN.match(text, i)
        if not m:
            raise SyntaxError_("character %r at %d:%d" % (text[i], line, col))
        g, v = m.lastgroup, m.group()
        if g not in ("sp", "com"):
            k = "kw" if g == "id" and v in KEYWORDS else g
            r.append(Tok(k, v, line, col))
        for c in v:
            if c == "\n":
                line, col = line + 1, 1
            else:
                col += 1
        i = m.end()
    return r, (line, col)


PREC = {"*": 10, "/": 10, "+": 9, "-": 9, "<<": 8, ">>": 8, ">": 7, ">=": 7, "<": 7, "<=": 7, "==": 6,
        "&": 5, "^": 4, "|": 3, "and": 2, "or": 1, "?": 1}


class Parser:
    def __init__(self, toks, offset=0):
        self.t, self.i, self.off = toks, 0, offset
        self.nodes, self.spans, self.decls = [], [], []
        self.owner = {}
        self.cur = None
        self.uses = []

    # ---------------------------------------------------------------------------------------------- movement
    def peek(self, *vs):
        return self.i < len(self.t) and self.t[self.i].k not in ("str",) and self.t[self.i].v in vs

    def need(self, v):
        if not self.peek(v):
            raise SyntaxError_("wanted %s at %s" % (v, self.t[self.i:self.i + 3]))
        self.i += 1

    def take(self, v):
        if self.peek(v):
            self.i += 1
            return True
        return False

    def ident(self):
        if self.i >= len(self.t) or self.t[self.i].k != "id":
            raise SyntaxError_("wanted a name at %s" % self.t[self.i:self.i + 3])
        self.i += 1
        return self.t[self.i - 1].v

    def add(self, a, b=None, /, **kw):
        """a node for the tokens a..b (b exclusive, default: up to here)"""
        if "as_" in kw:
            kw["as"] = kw.pop("as_")
        self.nodes.append(kw)
        self.spans.append((a, self.i if b is None else b))
        i = len(self.nodes) + self.off
        if self.cur is not None:
            self.owner[i] = self.cur
        return i

    def node(self, i): return self.nodes[i - 1 - self.off]

    def sep(self, close, f):
        r = []
        if not self.peek(close):
            r.append(f())
            while self.take(","):
                r.append(f())
        self.need(close)
        return r

    # ---------------------------------------------------------------------------------------------- types
    def type(self):
        a = self.i
        if self.take("fn"):
            self.need("(")
            ps = self.sep(")", self.type)
            r = self.type() if self.type_start() else 0
            return self.add(a, k="tf", ps=ps, r=r)
        if self.take("["):
            self.need("]")
            return self.add(a, k="ta", e=self.type())
        n = self.ident()
        as_ = []
        if self.take("«"):
            as_ = self.sep("»", self.type)
        return self.add(a, k="tn", n=n, as_=as_)

    def type_start(self):
        return self.peek("fn", "[") or (self.i < len(self.t) and self.t[self.i].k == "id")

    def tps(self):
        return self.sep("»", self.ident) if self.take("«") else []

    def param(self):
        a = self.i
        n = self.ident()
        self.need(":")
        return self.add(a, k="param", n=n, t=self.type())

    def params(self):
        self.need("(")
        return self.sep(")", self.param)

    # ---------------------------------------------------------------------------------------------- declarations
    def prog(self):
        self.starts = []
        while self.i < len(self.t):
            self.starts.append(self.i)
            self.decls.append(self.decl())
        return self

    def decl(self):
        if self.take("#"):
            self.need("[")
            self.sep("]", self.ident)
        a = self.i
        self.cur = cur = len(self.decls) + 1
        if self.take("struct"):
            n = self.ident()
            tps = self.tps()
            b = self.i
            self.need("{")
            fs = []
            while not self.take("}"):
                fs.append(self.param())
            return self.add(a, b, k="struct", n=n, tps=tps, fields=fs, cons=n[0].upper() + n[1:], lower=n[0].upper() != n[0])
        if self.take("enum"):
            n = self.ident()
            tps = self.tps()
            b = self.i
            self.need("{")
            cs = []
            while not self.take("}"):
                c = self.i
                m = self.ident()
                cs.append(self.add(c, k="ctor", n=m, params=self.params()))
            return self.add(a, b, k="enum", n=n, tps=tps, cases=cs)
        self.need("fn")
        n = self.ident()
        tps = self.tps()
        ps = self.params()
        r = self.type() if self.type_start() else 0
        b = self.i
        blk, body, e = False, [], 0
        if self.peek("{"):
            blk, body = True, self.block()
        elif self.take("="):
            e = self.expr(0)
        return self.add(a, b, k="fn", n=n, tps=tps, params=ps, ret=r, blk=blk, body=body, expr=e, ext=not blk and not e)

    # ---------------------------------------------------------------------------------------------- statements
    def block(self):
        self.need("{")
        r = []
        while not self.take("}"):
            r.append(self.stmt())
        return r

    def stmt(self):
        a = self.i
        if self.take("return"):
            e = self.expr(0) if self.expr_start() else 0
            return self.add(a, k="ret", e=e)
        if self.take("while"):
            c = self.expr(0)
            b = self.i
            return self.add(a, b, k="while", c=c, body=self.block())
        if self.take("for"):
            n = self.ident()
            self.bind(n)
            self.need("in")
            h = self.i
            x = self.expr(0)
            y = self.expr(0) if self.take("..") else 0
            hd = self.add(h, k="head")
            b = self.i
            return self.add(a, b, k="for", n=n, a=x, b=y, h=hd, body=self.block())
        if self.take("if"):
            cs, bs, els = [self.expr(0)], [], False
            b = self.i
            bs.append(self.block())
            while self.take("elseif"):
                cs.append(self.expr(0))
                bs.append(self.block())
            if self.take("else"):
                els = True
                bs.append(self.block())
            return self.add(a, b, k="if", cs=cs, bs=bs, els=els)
        if self.take("match"):
            e = self.expr(0)
            b = self.i
            self.need("{")
            cs = []
            while not self.take("}"):
                c = self.i
                self.need("case")
                n = self.ident()
                self.need("(")
                vs = self.sep(")", self.ident)
                for v in vs: self.bind(v)
                d = self.i
                self.need(":")
                body = []
                while not self.peek("case", "}"):
                    body.append(self.stmt())
                cs.append(self.add(c, d, k="case", c=n, vs=vs, body=body))
            return self.add(a, b, k="match", e=e, cases=cs)
        e = self.expr(0)
        if self.take(":="):
            if self.node(e)["k"] == "var": self.bind(self.node(e)["n"])
            return self.add(a, k="das", l=e, e=self.expr(0))
        if self.take("="):
            return self.add(a, k="as", l=e, e=self.expr(0))
        return self.add(a, k="expr", e=e)

    def bind(self, n):
        if self.uses: self.uses[-1][1].add(n)

    def use(self, n):
        if self.uses: self.uses[-1][0].add(n)

    # ---------------------------------------------------------------------------------------------- expressions
    def expr_start(self):
        return self.i < len(self.t) and (self.t[self.i].k in ("int", "str", "id") or self.peek("true", "false", "not", "(", "fn", "-", "~", "["))

    def expr(self, prec):
        a = self.i
        l = self.postfix()
        while self.i < len(self.t) and self.t[self.i].k in ("op", "kw") and PREC.get(self.t[self.i].v, 0) > prec:
            op = self.t[self.i].v
            self.i += 1
            if op == "?":
                x = self.expr(0)
                self.need(":")
                y = self.expr(0)
                l = self.add(a, k="tern", c=l, a=x, b=y)
            else:
                l = self.add(a, k="bin", op=op, a=l, b=self.expr(PREC[op]))
        return l

    def postfix(self):
        a = self.i
        if self.peek("not", "-", "~"):
            op = self.t[a].v
            self.i += 1
            x = self.expr(11)
            n = self.node(x)
            if op == "-" and n["k"] == "int" and "neg" not in n:
                return self.add(a, k="int", fits=int(n["txt"], 0) <= 1 << 62, txt="-" + n["txt"], neg=True)
            return self.add(a, k="un", op=op, a=x)
        l = self.prim()
        while True:
            if self.peek("(") or self.peek("«"):
                ts = []
                if self.take("«"):
                    ts = self.sep("»", self.type)
                self.need("(")
                as_ = self.sep(")", lambda: self.expr(0))
                n = self.node(l)
                if n["k"] == "var" and not ts or n["k"] == "var":
                    l = self.add(a, k="call", n=n["n"], ts=ts, as_=as_)
                else:
                    if ts: raise SyntaxError_("type arguments of an expression")
                    l = self.add(a, k="dyn", f=l, as_=as_)
            elif self.take("["):
                i = self.expr(0)
                self.need("]")
                l = self.add(a, k="idx", a=l, i=i)
            elif self.take("."):
                n = self.ident()
                if self.peek("(") or self.peek("«"):
                    ts = []
                    if self.take("«"):
                        ts = self.sep("»", self.type)
                    self.need("(")
                    self.use(n)
                    l = self.add(a, k="mcall", o=l, n=n, ts=ts, as_=self.sep(")", lambda: self.expr(0)))
                    if self.peek("("):
                        raise SyntaxError_("call of the result of a method call")
                else:
                    l = self.add(a, k="dot", o=l, n=n)
            else:
                return l

    def prim(self):
        a = self.i
        if a >= len(self.t):
            raise SyntaxError_("end of text")
        t = self.t[a]
        if self.take("("):
            e = self.expr(0)
            self.need(")")
            return e
        if self.take("fn"):
            tps = self.tps()
            self.uses.append((set(), set()))
            ps = self.params()
            for p in ps: self.bind(self.node(p)["n"])
            r = self.type() if self.type_start() else 0
            blk, body, e = False, [], 0
            if self.peek("{"):
                blk, body = True, self.block()
            else:
                self.need("=")
                e = self.expr(0)
            u, b = self.uses.pop()
            if self.uses:
                self.uses[-1][0].update(u)
                self.uses[-1][1].update(b)
            return self.add(a, k="lam", tps=tps, params=ps, ret=r, blk=blk, body=body, expr=e, uses=sorted(u), binds=sorted(b))
        if self.take("["):
            return self.add(a, k="arr", es=self.sep("]", lambda: self.expr(0)))
        if self.take("type"):
            self.need("(")
            x = self.type()
            self.need(")")
            return self.add(a, k="type", t=x)
        self.i += 1
        if t.k == "int":
            return self.add(a, k="int", fits=int(t.v, 0) < 1 << 62, txt=t.v)
        if t.k == "str": return self.add(a, k="str")
        if t.v in ("true", "false") and t.k == "kw": return self.add(a, k="bool")
        if t.k == "id":
            self.use(t.v)
            return self.add(a, k="var", n=t.v)
        raise SyntaxError_("unexpected %s" % t)


def parse(text, offset=0):
    toks, end = tokenize(text)
    p = Parser(toks, offset).prog()
    p.end = end
    return p


def library(files, names=None):
    """declarations of the standard library (functions: only those called `names`), without the bodies"""
    text = "\n".join(open(f, encoding="utf-8").read() for f in files)
    p = parse(text)
    # keep only what the declarations need
    keep, order = {}, []

    def copy(i):
        n = dict(p.node(i))
        if n["k"] == "tn": n["as"] = [copy(x) for x in n["as"]]
        elif n["k"] == "ta": n["e"] = copy(n["e"])
        elif n["k"] == "tf": n["ps"] = [copy(x) for x in n["ps"]]; n["r"] = copy(n["r"]) if n["r"] else 0
        elif n["k"] == "param": n["t"] = copy(n["t"])
        elif n["k"] == "struct": n["fields"] = [copy(x) for x in n["fields"]]
        elif n["k"] == "enum": n["cases"] = [copy(x) for x in n["cases"]]
        elif n["k"] == "ctor": n["params"] = [copy(x) for x in n["params"]]
        elif n["k"] == "fn":
            n["params"] = [copy(x) for x in n["params"]]
            n["ret"] = copy(n["ret"]) if n["ret"] else 0
            n.update(blk=False, body=[], expr=0, ext=True)
        order.append(n)
        return len(order)
    decls = [copy(d) for d in p.decls if names is None or p.node(d)["k"] != "fn" or p.node(d)["n"] in names]
    return {"nodes": order, "decls": decls}
