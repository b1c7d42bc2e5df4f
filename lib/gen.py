"""Random generator of typed Clara programs (always within the rules of the language).  A profile weighs the features."""
import random
from clara import *

MAXI, MINI = (1 << 62) - 1, -(1 << 62)
BOUNDARY = sorted(set([0, 1, 2, 3, 5, 7, 8, 10, 63, 64, 100, 127, 128, 255, 256, 1000, 32767, 32768, 65535, 65536, MAXI, MAXI - 1, MAXI // 2]
                      + [(1 << k) + d for k in (8, 16, 27, 31, 32, 33, 46, 47, 48, 53, 61) for d in (-1, 0, 1)]
                      + [10 ** k for k in (9, 10, 18)] + [0x5555555555555555 >> 1, 0x3333333333333333]))
WORDS = [b"", b"a", b"b", b"ab", b"hello", b"Hello, World", "é".encode(), "日本".encode(), b"\\", b"\"", b"\n", b"x\ny", b"%d %s",
         b"  ", b"0", b"abcabcabc", b"// no comment", b"{}", b"a'b`c", b"\xc3\xa9\xff", b"end\r\n", b"long " * 12, b"\x01\x7f"]
FIELD_NAMES = [["fa", "fb", "fc", "fd", "fe", "ff"], ["v", "V", "vV", "VV", "Vv", "v1"], ["a", "aa", "aaa", "aaaa", "aaaaa", "aaaaaa"], ["xa", "ya", "a", "_a", "__a", "za"], ["x1", "x11", "x111", "x10", "x01", "x_1"], ["größe", "grösse", "GRÖSSE", "Größe", "groesse", "ß"]]
NAMES = ["a", "A", "X1", "abc", "ABC", "Acc", "b", "c", "d", "e", "x", "y", "z", "i", "j", "k", "n", "acc", "tmp", "val", "rax", "rdi", "rsp", "_x", "x1", "x_y", "X", "Abc",
         "größe", "ret", "self", "null", "env", "fp", "main1", "il", "data", "text", "section", "ptr", "word", "offset", "λ", "名", "a1b2",
         "__a", "iff", "returned", "formula", "not_", "andy", "types", "inn", "whiles", "cases", "matching", "truethy", "falsey", "structs"]


class Var:
    def __init__(self, name, t, length=None, ro=False):
        self.name, self.t, self.length, self.ro = name, t, length, ro


class Gen:
    DEFAULT = dict(depth=4, stmts=6, blocks=2, tick=0.0, ext=0.0, closures=0.15, structs=0.2, enums=0.2, arrays=0.2, strings=0.2, bytes=0.05,
                   funcs=4, ternary=0.2, generics=0.1, gc=0.0, shadow=0.2, loops=0.2, returns=0.1, bigints=0.3, div=0.15, calls=0.25,
                   oob=0.0, panic=0.0, nullary=0.1)

    def __init__(self, rng, **profile):
        self.r = rng
        self.p = dict(self.DEFAULT)
        self.p.update(profile)
        self.prog = Prog()
        self.fns = []            # callable functions so far: (name, [param types], ret)
        self.structs = []        # Struct declarations
        self.enums = []
        self.externs = []
        self.extset = set()
        self.n = 0
        self.helpers = set()
        self.types = []
        self.loop = 0
        self.ret = NOTHING
        self.fndepth = 0

    # ------------------------------------------------------------------------------------------ utilities
    def fresh(self, base="f"):
        self.n += 1
        return "%s%d" % (base, self.n)

    def chance(self, p): return self.r.random() < p

    def pick(self, xs): return xs[self.r.randrange(len(xs))]

    def wpick(self, ws):
        """ws: [(weight, thunk)]"""
        tot = sum(w for w, _ in ws)
        x = self.r.random() * tot
        for w, f in ws:
            x -= w
            if x <= 0:
                return f()
        return ws[-1][1]()

    def helper(self, name):
        if name in self.helpers:
            return
        self.helpers.add(name)
        T = PAR("T")
        if name == "tk":      # print the tag, give back the value
            self.prog.decls.insert(0, Fn("tk", [("tag", INT), ("x", T)], T, [out(var("tag", INT)), ret(var("x", T))], tparams=("T",)))
        elif name == "idT":
            self.prog.decls.insert(0, Fn("idT", [("x", T)], T, expr=var("x", T), tparams=("T",)))
        elif name == "pickT":
            self.prog.decls.insert(0, Fn("pickT", [("c", BOOL), ("a", T), ("b", T)], T, tparams=("T",),
                                         body=[if_([(var("c", BOOL), [ret(var("a", T))])]), ret(var("b", T))]))
        elif name == "apT":
            self.prog.decls.insert(0, Fn("apT", [("f", FN([T], T)), ("x", T)], T, tparams=("T",),
                                         expr=call("f", [var("x", T)], T)))
        elif name == "firstT":
            self.prog.decls.insert(0, Fn("firstT", [("xs", ARR(T))], T, tparams=("T",), expr=idx(var("xs", ARR(T)), lit(0))))
        elif name == "churn":    # allocate garbage
            self.prog.decls.insert(0, Fn("churn", [("n", INT)], INT, [
                das("s", slit("g")), range_("i", lit(0), var("n", INT), [das("t", arr([var("i", INT), lit(7)])), as_(var("s", STRING), call("append", [slit("q"), slit("r")], STRING))]),
                ret(var("n", INT))]))

    def ext(self, name, params, r, attr="RawValues"):
        if name not in self.extset:
            self.extset.add(name)
            self.externs.append(Fn(name, params, r, extern=True, attr=attr))

    # ------------------------------------------------------------------------------------------ types
    def setup_types(self):
        r = self.r
        base = [INT, INT, BOOL]
        if self.p["strings"]: base.append(STRING)
        self.types = list(base)
        if self.p["structs"]:
            for i in range(r.randint(1, 3)):
                n = r.choice([1, 2, 2, 3, 4, 5, 6])
                name = self.fresh("st")
                fns = self.pick(FIELD_NAMES) if self.chance(.5) else FIELD_NAMES[0]
                fields = [(fns[j], self.any_type(1)) for j in range(n)]
                s = Struct(name, fields)
                self.structs.append(s)
                self.prog.add(s)
                self.types.append(ST(name))
            if self.chance(self.p["generics"] * 2):
                s = Struct(self.fresh("gs"), [("first", PAR("A")), ("second", PAR("B")), ("num", INT)], ("A", "B"))
                self.structs.append(s)
                self.prog.add(s)
        if self.p["enums"]:
            for i in range(r.randint(1, 2)):
                name = self.fresh("en")
                sfx = self.pick(["ABCDEFG", ["a", "A", "aa", "aA", "_a"], ["x", "xx", "xxx", "xxxx", "x1"]]) if self.chance(.5) else "ABCDEFG"
                cases = [("%s%s" % (name.upper(), sfx[j]), [("p%d" % q, self.any_type(1)) for q in range(r.choice([0, 1, 1, 2, 3, 4, 5]))])
                         for j in range(r.randint(1, 5))]
                if r.random() < 0.3:
                    cases[0] = (cases[0][0], [])
                e = Enum(name, cases)
                self.enums.append(e)
                self.prog.add(e)
                self.types.append(EN(name))

    def any_type(self, depth=2, fn=True):
        r, p = self.r, self.p
        opts = [(3, lambda: INT), (1, lambda: BOOL), (4 * p["strings"], lambda: STRING)]
        if self.structs:
            def st():
                s = self.pick(self.structs)
                return ST(s.name, *[self.pick([INT, STRING, BOOL]) for _ in s.tparams])
            opts.append((4 * p["structs"], st))
        if self.enums: opts.append((4 * p["enums"], self.enum_type))
        if depth > 0:
            opts.append((4 * p["arrays"], lambda: ARR(self.any_type(depth - 1))))
            if fn: opts.append((4 * p["closures"], lambda: FN([self.any_type(0) for _ in range(r.randint(0, 2))], self.any_type(0))))
        if p["bytes"]: opts.append((2 * p["bytes"], lambda: BYTES))
        return self.wpick(opts)

    def enum_type(self):
        e = self.pick(self.enums)
        return EN(e.name, *[self.pick([INT, STRING, BOOL]) for _ in e.tparams])

    def struct_of(self, t):
        for s in self.structs:
            if s.name == t[1]:
                b = dict(zip(s.tparams, t[2]))
                return s, [(n, subst(ft, b)) for n, ft in s.fields]

    def enum_of(self, t):
        for e in self.enums:
            if e.name == t[1]:
                b = dict(zip(e.tparams, t[2]))
                return e, [(c, [(n, subst(x, b)) for n, x in ps]) for c, ps in e.cases]

    # ------------------------------------------------------------------------------------------ expressions
    def int_lit(self):
        r = self.r
        if self.chance(self.p["bigints"]):
            v = r.choice(BOUNDARY) if r.random() < 0.7 else r.getrandbits(r.randint(1, 62))
            if r.random() < 0.25: v = -v
        else:
            v = r.randint(-3, 12)
        n = lit(v)
        if r.random() < 0.15:
            n.txt = ("-" if v < 0 else "") + "0x" + r.choice(["%x", "%X"]) % abs(v)
        return n

    def vars_of(self, env, t): return [v for v in env if v.t == t]

    def e(self, t, env, d):
        n = self.e0(t, env, d)
        if self.p["tick"] and d > 0 and self.chance(self.p["tick"]) and t != NOTHING:
            self.helper("tk")
            if t == INT and self.chance(0.3):
                self.ext("vtick", [("x", INT)], INT)
                return call("vtick", [n], INT)
            return call("tk", [lit(self.r.randint(0, 99)), n], t)
        return n

    def e0(self, t, env, d):
        r, p = self.r, self.p
        opts = []
        vs = self.vars_of(env, t)
        if vs: opts.append((3 if d > 0 else 6, lambda: self.use(self.pick(vs))))
        opts.append((1.5 if d > 0 else 4, lambda: self.leaf(t, env, d)))
        if d > 0:
            opts.append((4 * p["ternary"], lambda: tern(self.e(BOOL, env, d - 1), self.e(t, env, d - 1), self.e(t, env, d - 1))))
            fs = [f for f in self.fns if f[2] == t]
            if fs and not self.loop > 2: opts.append((10 * p["calls"], lambda: self.call_fn(self.pick(fs), env, d)))
            fv = [v for v in env if v.t[0] == "fn" and v.t[2] == t]
            if fv and not self.loop > 2: opts.append((10 * p["closures"], lambda: self.call_var(self.pick(fv), env, d)))
            if p["closures"]: opts.append((2 * p["closures"], lambda: self.call_lam(t, env, d)))
            if p["generics"]: opts.append((3 * p["generics"], lambda: self.generic(t, env, d)))
            sv = [v for v in env if v.t[0] == "st" and v.t[1] != "byteBuffer" and any(ft == t for _, ft in self.struct_of(v.t)[1])]
            if sv: opts.append((10 * p["structs"], lambda: self.field(self.pick(sv), t)))
            av = [v for v in env if v.t == ARR(t)]
            if av: opts.append((10 * p["arrays"], lambda: self.index(self.pick(av), env, d)))
            if p["arrays"]: opts.append((1.5 * p["arrays"], lambda: self.index_lit(t, env, d)))
            if t == INT: opts.append((8, lambda: self.int_op(env, d)))
            if t == BOOL: opts.append((8, lambda: self.bool_op(env, d)))
            if t == STRING: opts.append((6 * p["strings"], lambda: self.str_op(env, d)))
        return self.wpick(opts)

    def use(self, v): return var(v.name, v.t)

    def leaf(self, t, env, d):
        r = self.r
        k = t[0]
        if k == "int": return self.int_lit()
        if k == "bool": return blit(r.random() < 0.5)
        if k == "string": return slit(self.pick(WORDS))
        if k == "bytes": return call("Bytes", [lit(r.choice([1, 2, 4, 4, 9, 17]))], BYTES)
        if k == "arr": return self.new_array(t, env, d)
        if k == "st":
            if t == BUF: return call("NewByteBuffer", [lit(r.choice([0, 1, 3, 16]))], BUF)
            s, fs = self.struct_of(t)
            return call(s.cons, [self.e(ft, env, max(0, d - 1)) for _, ft in fs], t, ())
        if k == "en":
            e, cs = self.enum_of(t)
            if d <= 0: cs = [min(cs, key=lambda c: len(c[1]))]
            c, ps = self.pick(cs)
            return call(c, [self.e(pt, env, max(0, d - 1)) for _, pt in ps], t, t[2] if t[2] else ())
        if k == "fn": return self.lam(t, env, d)
        raise Exception(t)

    def new_array(self, t, env, d, n=None):
        r = self.r
        if t[1][0] in ("int", "string", "bool", "st", "en", "arr", "fn", "bytes"):
            if self.chance(0.25) and d > 0 and t[1][0] != "fn":
                return call("array", [lit(n or r.choice([1, 2, 4, 5])), self.e(t[1], env, max(0, d - 2))], t)
        return arr([self.e(t[1], env, max(0, d - 1)) for _ in range(n or r.choice([1, 2, 2, 3, 4, 6]))])

    def field(self, v, t):
        s, fs = self.struct_of(v.t)
        return fld(self.use(v), self.pick([n for n, ft in fs if ft == t]), t)

    def index(self, v, env, d):
        a = self.use(v)
        if self.chance(self.p["oob"]):
            return idx(a, self.e(INT, env, d - 1))
        if v.length and self.chance(0.6):
            return idx(a, lit(self.r.randrange(v.length)))
        return idx(a, self.safe_index(a, env, d))

    def safe_index(self, a, env, d):
        return call("mod", [bin_("&", self.e(INT, env, max(0, d - 2)), lit(self.r.choice([7, 255, 1023]))), fld(a, "length", INT)], INT)

    def index_lit(self, t, env, d):
        n = self.r.randint(1, 4)
        return idx(arr([self.e(t, env, d - 1) for _ in range(n)]), lit(self.r.randrange(n)))

    def int_op(self, env, d):
        r, p = self.r, self.p
        E = lambda: self.e(INT, env, d - 1)
        opts = [(6, lambda: bin_(r.choice(["+", "-", "*", "&", "|", "^"]), E(), E())),
                (1.5, lambda: un(r.choice(["-", "~"]), E())),
                (8 * p["div"], lambda: bin_("/", E(), self.nonzero(env, d))),
                (8 * p["div"], lambda: bin_(r.choice(["<<", ">>"]), E(), self.shift(env, d))),
                (2 * p["div"], lambda: call("mod", [E(), self.nonzero(env, d)], INT))]
        if p["ext"]: opts.append((10 * p["ext"], lambda: self.ext_call(env, d)))
        if p["strings"]:
            opts.append((2 * p["strings"], lambda: fld(self.e(STRING, env, d - 1), "length", INT)))
            opts.append((1 * p["strings"], lambda: call("IndexOf", [self.e(STRING, env, d - 1), slit(self.pick([w for w in WORDS if w]))], INT)))
        av = [v for v in env if v.t[0] == "arr"]
        if av: opts.append((2 * p["arrays"], lambda: fld(self.use(self.pick(av)), "length", INT)))
        bv = [v for v in env if v.t == BYTES]
        if bv: opts.append((5 * p["bytes"], lambda: self.byte_get(self.pick(bv), env, d)))
        return self.wpick(opts)

    def byte_get(self, v, env, d):
        a = self.use(v)
        return dot(a, "get", [call("mod", [bin_("&", self.e(INT, env, max(0, d - 2)), lit(63)), dot(a, "length", [], INT)], INT)], INT)

    def nonzero(self, env, d):
        r = self.r
        if r.random() < 0.5: return lit(r.choice([1, 2, 3, 7, 10, -1, -2, -5, 1 << 31, MAXI, 1000003]))
        return bin_("|", self.e(INT, env, d - 1), lit(1))

    def shift(self, env, d):
        r = self.r
        if r.random() < 0.6: return lit(r.choice([0, 1, 2, 3, 7, 8, 31, 32, 33, 61, 62, 63]))
        return bin_("&", self.e(INT, env, d - 1), lit(r.choice([3, 7, 31, 63])))

    def ext_call(self, env, d):
        n = self.r.choice([0, 1, 2, 3, 4, 5, 6, 6])
        self.ext("vraw%d" % n, [("abcdef"[j], INT) for j in range(n)], INT)
        return call("vraw%d" % n, [self.e(INT, env, d - 1) for _ in range(n)], INT)

    def bool_op(self, env, d):
        r = self.r
        E = lambda: self.e(INT, env, d - 1)
        B = lambda: self.e(BOOL, env, d - 1)
        opts = [(5, lambda: bin_(r.choice(CMP), E(), E())), (2, lambda: bin_(r.choice(["and", "or"]), B(), B())), (1, lambda: un("not", B()))]
        if self.p["strings"]: opts.append((2 * self.p["strings"], lambda: call("Equals", [self.e(STRING, env, d - 1), self.e(STRING, env, d - 1)], BOOL)))
        return self.wpick(opts)

    def str_op(self, env, d):
        r = self.r
        S = lambda: self.e(STRING, env, d - 1)
        opts = [(3, lambda: (call if r.random() < .5 else lambda f, a, t: dot(a[0], f, a[1:], t))("append", [S(), S()], STRING)),
                (2, lambda: call("toString", [self.e(INT, env, d - 1)], STRING)),
                (1, lambda: call("toString", [self.e(BOOL, env, d - 1)], STRING)),
                (1, lambda: self.substr(env, d))]
        return self.wpick(opts)

    def substr(self, env, d):
        w = self.pick([w for w in WORDS if len(w) > 2])
        a = self.r.randint(0, len(w)); b = self.r.randint(a, len(w))
        return call("Substring", [slit(w), lit(a), lit(b)], STRING)

    def call_fn(self, f, env, d):
        name, ps, rt = f
        args = [self.e(t, env, d - 1) for t in ps]
        if args and self.chance(0.3) and args[0].k not in ("lam",): return dot(args[0], name, args[1:], rt)
        return call(name, args, rt)

    def call_var(self, v, env, d):
        args = [self.e(t, env, d - 1) for t in v.t[1]]
        return call(v.name, args, v.t[2])

    def call_lam(self, t, env, d):
        ft = FN([self.any_type(0) for _ in range(self.r.randint(0, 3))], t)
        return dyn(self.lam(ft, env, d, block=True), [self.e(x, env, d - 1) for x in ft[1]], t)

    def generic(self, t, env, d):
        k = self.r.randrange(4)
        if k == 0:
            self.helper("idT"); return call("idT", [self.e(t, env, d - 1)], t)
        if k == 1:
            self.helper("pickT"); return call("pickT", [self.e(BOOL, env, d - 1), self.e(t, env, d - 1), self.e(t, env, d - 1)], t)
        if k == 2 and t[0] != "fn":
            self.helper("apT"); return call("apT", [self.lam(FN([t], t), env, d - 1), self.e(t, env, d - 1)], t)
        self.helper("firstT"); return call("firstT", [self.new_array(ARR(t), env, d - 1)], t)

    def lam(self, t, env, d, block=False):
        """a function value of type t; its captured variables are limited to five"""
        r = self.r
        cap = list(env)
        r.shuffle(cap)
        keep, used = [], set()
        for v in cap:
            if len(keep) >= 3: break
            keep.append(v)
        keep = [v for v in env if v in keep]       # innermost last
        keep = visible(keep, env)
        params = []
        for i, pt in enumerate(t[1]):
            params.append((self.fresh("q"), pt))
        inner = keep + [Var(n, pt) for n, pt in params]
        loop, self.loop = self.loop, max(self.loop, 1)
        self.fndepth += 1
        old, self.ret = self.ret, t[2]
        try:
            if not block and (r.random() < 0.5 or d <= 1 or self.fndepth > 2):
                return lam(params, t[2], expr=self.e(t[2], inner, max(0, min(d - 1, 2))))
            ps = inner[len(keep):]
            body, en2 = self.block(inner, 2 if self.fndepth < 3 else 0, 0, max(0, d - 1), extra=ps)
            body.append(ret(self.e(t[2], en2, max(0, d - 2))))
            return lam(params, t[2], body=body)
        finally:
            self.loop = loop
            self.ret = old
            self.fndepth -= 1

    # ------------------------------------------------------------------------------------------ statements
    def name_for(self, env, local, t):
        r = self.r
        taken = {v.name for v in local}
        if env and self.chance(self.p["shadow"]):
            xs = [v.name for v in env if v.name not in taken and not v.name.startswith("w_")]
            if xs: return self.pick(xs)
        for _ in range(8):
            n = self.pick(NAMES)
            if n not in taken and n not in {v.name for v in env}: return n
        return self.fresh("v")

    def block(self, env, nst, blocks, d, extra=()):
        """statements in a new scope: -> (stmts, env inside at its end).  extra: variables already declared in that scope"""
        local = list(extra)
        cur = list(env)
        ss = []
        for _ in range(nst):
            st = self.stmt(cur, local, blocks, d)
            if st is None: continue
            s, new = st
            ss.append(s)
            if new is not None:
                local.append(new)
                cur = [v for v in cur if v.name != new.name] + [new]
        return ss, cur

    def stmt(self, env, local, blocks, d):
        r, p = self.r, self.p

        def decl():
            t = self.any_type()
            e = self.e(t, env, d)
            v = Var(self.name_for(env, local, t), t)
            if e.k == "arr": v.length = len(e.es)
            return das(v.name, e), v

        def assign():
            vs = [v for v in env if not v.ro]
            if not vs: return decl()
            v = self.pick(vs)
            v.length = None
            return as_(self.use(v), self.e(v.t, env, d)), None

        def setfield():
            sv = [v for v in env if v.t[0] == "st" and v.t != BUF]
            if not sv: return decl()
            v = self.pick(sv)
            n, t = self.pick(self.struct_of(v.t)[1])
            return as_(fld(self.use(v), n, t), self.e(t, env, d)), None

        def setindex():
            av = [v for v in env if v.t[0] == "arr"]
            if not av: return decl()
            v = self.pick(av)
            return as_(self.index(v, env, d), self.e(v.t[1], env, d)), None

        def setbyte():
            bv = [v for v in env if v.t == BYTES]
            if not bv: return decl()
            a = self.use(self.pick(bv))
            i = call("mod", [bin_("&", self.e(INT, env, max(0, d - 2)), lit(63)), dot(a, "length", [], INT)], INT)
            return expr(dot(a, "set", [i, self.e(INT, env, d)], NOTHING)), None

        def show():
            return out(self.e(self.pick([INT, INT, BOOL, STRING] if p["strings"] else [INT, INT, BOOL]), env, d)), None

        def ifs():
            n = r.choice([1, 1, 1, 2, 3])
            return if_([(self.e(BOOL, env, d - 1), self.sub(env, blocks, d)) for _ in range(n)],
                       self.sub(env, blocks, d) if r.random() < 0.5 else None), None

        def loops():
            self.loop += 1
            try:
                k = r.randrange(4)
                if k == 0:
                    v = Var(self.name_for(env, local, INT), INT, ro=True)
                    a = lit(r.randint(-2, 4)); b = bin_("+", lit(a.v), lit(r.randint(0, 3)))
                    return range_(v.name, a, b, self.sub([x for x in env if x.name != v.name] + [v], blocks, d, [v])), None
                if k == 1:
                    v = Var(self.name_for(env, local, INT), INT, ro=True)
                    return range_(v.name, lit(r.randint(0, 4)), lit(0), self.sub([x for x in env if x.name != v.name] + [v], blocks, d, [v])), None
                if k == 2:
                    t = self.any_type(1)
                    v = Var(self.name_for(env, local, t), t, ro=True)
                    av = [x for x in env if x.t == ARR(t)]
                    a = self.new_array(ARR(t), env, d - 1)
                    inner = [x for x in env if x.name != v.name] + [v]
                    body, en2 = self.block(inner, r.randint(1, 3), blocks - 1, d, extra=[v])
                    return each(v.name, a, body), None
                return None
            finally:
                self.loop -= 1

        def match_():
            if not self.enums: return decl()
            t = self.enum_type()
            en, cs = self.enum_of(t)
            cs = list(cs)
            r.shuffle(cs)
            cases = []
            for c, ps in cs:
                vs = []
                for n, pt in ps:
                    vs.append(Var(self.fresh("m"), pt))
                if vs and r.random() < 0.2:
                    others = [v.name for v in env if v.name not in {x.name for x in vs} and not v.name.startswith('w_')]
                    if others: vs[0].name = self.pick(others)
                inner = [x for x in env if x.name not in {v.name for v in vs}] + vs
                body, _ = self.block(inner, r.randint(0, 2), blocks - 1, d, extra=vs)
                for v in vs:
                    if v.t in (INT, BOOL, STRING) and r.random() < .7: body.insert(0, out(self.use(v)))
                if r.random() < 0.3: body = [out(lit(r.randint(0, 99)))] + body
                cases.append((c, [v.name for v in vs], body))
            return match(self.e(t, env, d), cases), None

        def ret_():
            if self.fndepth == 0 and self.ret is None: return show()
            return if_([(self.e(BOOL, env, d - 1), [ret(None if self.ret in (NOTHING, None) else self.e(self.ret, env, d - 1))])]), None

        def callv():
            fs = [f for f in self.fns if f[2] == NOTHING]
            if not fs or self.loop > 1: return show()
            f = self.pick(fs)
            return expr(call(f[0], [self.e(t, env, d - 1) for t in f[1]], NOTHING)), None

        def while_s():
            nm = self.fresh("w_")
            v = Var(nm, INT, ro=True)
            self.loop += 1
            body = self.sub([x for x in env] + [v], blocks, d)
            self.loop -= 1
            body.append(as_(var(nm, INT), bin_("+", var(nm, INT), lit(1))))
            c = bin_("<", var(nm, INT), lit(r.randint(0, 4)))
            if r.random() < 0.3: c = bin_("and", c, self.e(BOOL, env, 1))
            # the counter needs a declaration first: wrap both in an if
            return if_([(true(), [das(nm, lit(0)), while_(c, body)])]), None

        def gc_(): return expr(call("gc", [], NOTHING)), None

        def churn():
            self.helper("churn")
            return expr(call("churn", [lit(r.randint(1, 3))], INT)), None

        opts = [(4, decl), (2.5, assign), (2, show), (6 * p["structs"], setfield), (5 * p["arrays"], setindex), (6 * p["bytes"], setbyte),
                (10 * p["gc"], gc_), (10 * p["gc"], churn), (1, callv)]
        if blocks > 0:
            opts += [(2, ifs), (8 * p["loops"], loops), (3 * p["loops"], while_s), (8 * p["enums"], match_), (8 * p["returns"], ret_)]
        for _ in range(4):
            x = self.wpick(opts)
            if x is not None: return x
        return show()

    def sub(self, env, blocks, d, extra=()):
        ss, en = self.block(env, self.r.randint(0, 3), blocks - 1, max(1, d - 1), extra=extra)
        if self.r.random() < 0.5: ss.append(out(lit(self.r.randint(100, 199))))
        return ss

    def dump(self, env, n=12):
        """print what the variables hold"""
        ss = []
        for v in env[-n:]:
            ss += self.dump_var(self.use(v), v.t, 2)
        return ss

    def dump_var(self, e, t, d):
        k = t[0]
        if k in ("int", "bool", "string"): return [out(e)]
        if d <= 0: return []
        if k == "arr":
            v = self.fresh("el")
            b = self.dump_var(var(v, t[1]), t[1], d - 1)
            return [out(fld(e, "length", INT))] + ([each(v, e, b)] if b else [])
        if k == "st" and t != BUF:
            ss = []
            for n, ft in self.struct_of(t)[1]: ss += self.dump_var(fld(e, n, ft), ft, d - 1)
            return ss
        if k == "en":
            cs = []
            for i, (c, ps) in enumerate(self.enum_of(t)[1]):
                vs = [self.fresh("m") for _ in ps]
                b = [out(lit(200 + i))]
                for v, (_, pt) in zip(vs, ps): b += self.dump_var(var(v, pt), pt, d - 1)
                cs.append((c, vs, b))
            return [match(e, cs)]
        if k == "bytes":
            return [out(dot(e, "length", [], INT)), out(dot(e, "get", [lit(0)], INT))]
        return []

    # ------------------------------------------------------------------------------------------ functions
    def function(self, name=None, params=None, rt=None, d=None):
        r, p = self.r, self.p
        name = name or self.fresh("fun")
        if params is None: params = [self.any_type() for _ in range(r.choice([0, 1, 2, 2, 3, 4, 5, 6]))]
        if rt is None: rt = self.any_type() if r.random() < 0.85 else NOTHING
        names = []
        for i, t in enumerate(params): names.append(self.pick(["p%d" % i, NAMES[(i * 7 + len(name)) % len(NAMES)] + str(i)]))
        env = [Var(n, t) for n, t in zip(names, params)]
        d = d or max(2, p["depth"] - 1)
        old, self.ret = self.ret, rt
        self.fndepth += 1
        oldloop, self.loop = self.loop, 1
        ps = list(zip(names, params))
        if r.random() < 0.35 and rt != NOTHING:
            f = Fn(name, ps, rt, expr=self.e(rt, env, d))
        else:
            body, en = self.block(env, r.randint(1, max(2, p["stmts"] - 2)), min(p["blocks"], 1), d, extra=env)
            if rt != NOTHING: body.append(ret(self.e(rt, en, d - 1)))
            f = Fn(name, ps, rt, body=body)
        self.ret = old
        self.loop = oldloop
        self.fndepth -= 1
        self.prog.add(f)
        self.fns.append((name, params, rt))
        return f

    def case(self, name, env=()):
        self.ret = NOTHING
        self.fndepth = 0
        self.loop = 0
        body, en = self.block(list(env), self.p["stmts"], self.p["blocks"], self.p["depth"])
        body += self.dump(en)
        self.prog.add(Fn(name, [], NOTHING, body))
        return name


def visible(keep, env):
    """drop variables shadowed by a later one of the same name"""
    last = {}
    for v in env: last[v.name] = v
    return [v for v in keep if last[v.name] is v]


def general_file(rng, cases=12, **profile):
    """-> core.File of random general programs"""
    from core import File
    g = Gen(rng, **profile)
    g.setup_types()
    for _ in range(g.p["funcs"]): g.function()
    es = [g.case("case%d" % i) for i in range(cases)]
    return File(g.prog, es, externs=g.externs)
