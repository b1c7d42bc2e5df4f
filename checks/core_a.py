"""C01-C05: expressions, evaluation order, control flow, scope."""
import itertools, random
from clara import *
from core import *
from gen import *
from forms import *
import forms2

U = [0, 1, -1, 2, 3, -3, 7, 10, -10, 63, 64, 127, -128, 255, 256, 1000003, (1 << 31) - 1, 1 << 31, -(1 << 31), (1 << 32) - 1, 1 << 32,
     (1 << 32) + 1, -(1 << 32), 1 << 46, -(1 << 53) + 1, 1 << 61, -(1 << 61), MAXI - 1, MAXI, MINI + 1, MINI]


def I(v):
    """v as an expression (the smallest integer has no literal)"""
    return bin_("-", lit(MINI + 1), lit(1)) if v == MINI else lit(v)


def V(n): return var(n, INT)


def add_cases(prog, bodies, prefix="case"):
    es = []
    for i, b in enumerate(bodies):
        n = "%s%d" % (prefix, i)
        prog.add(Fn(n, [], NOTHING, b))
        es.append(n)
    return es


def tables(ops, vals, vals2=None, extra=()):
    """every operator on every pair of values, operands from variables"""
    vals2 = vals2 or vals
    bodies = []
    for op in ops:
        e = bin_(op, V("x"), V("y"))
        inner = [out(e)]
        if op == "/": inner = [if_([(un("not", bin_("==", V("y"), lit(0))), inner)])]
        bodies.append([das("xs", arr([I(v) for v in vals])), das("ys", arr([I(v) for v in vals2])),
                       each("x", var("xs", ARR(INT)), [each("y", var("ys", ARR(INT)), inner)])])
    return bodies


class IntExpr:
    """random integer / boolean expressions over given integer variables, operators only"""

    def __init__(self, rng, names, lits=0.5, bools=()):
        self.r, self.names, self.lits, self.bools = rng, names, lits, list(bools)
        self.g = Gen(rng, bigints=0.5)

    def i(self, d):
        r = self.r
        if d <= 0 or r.random() < 0.1:
            if not self.names or r.random() < self.lits: return self.g.int_lit()
            return V(r.choice(self.names))
        k = r.random()
        if k < 0.10: return un("-", self.i(d - 1))
        if k < 0.18: return un("~", self.i(d - 1))
        if k < 0.28: return bin_(r.choice(["<<", ">>"]), self.i(d - 1), lit(r.choice([0, 1, 2, 5, 31, 32, 47, 61, 62, 63])))
        if k < 0.32: return bin_(r.choice(["<<", ">>"]), self.i(d - 1), bin_("&", self.i(d - 1), lit(63)))
        if k < 0.42: return bin_("/", self.i(d - 1), lit(r.choice([1, -1, 2, -2, 3, 7, -7, 10, 1 << 32, MAXI])))
        if k < 0.46: return bin_("/", self.i(d - 1), bin_("|", self.i(d - 1), lit(1)))
        return bin_(r.choice(["+", "-", "*", "&", "|", "^", "+", "-"]), self.i(d - 1), self.i(d - 1))

    def b(self, d):
        r = self.r
        if d <= 0: return blit(r.random() < .5) if not self.bools or r.random() < .3 else var(r.choice(self.bools), BOOL)
        k = r.random()
        if k < 0.55: return bin_(r.choice(CMP), self.i(d - 1), self.i(d - 1))
        if k < 0.85: return bin_(r.choice(["and", "or"]), self.b(d - 1), self.b(d - 1))
        return un("not", self.b(d - 1))


def c01(ctx):
    r = random.Random(ctx.seed * 7919 + 1)
    files = []
    # every binary operator on every pair of boundary values
    p = Prog()
    sh = list(range(0, 64, 3)) + [1, 2, 31, 32, 61, 62, 63]
    b = tables(["+", "-", "*", "/", "&", "|", "^"], U) + tables(["<<", ">>"], U, sh)
    b += [[das("xs", arr([I(v) for v in U])), each("x", var("xs", ARR(INT)), [out(un("-", V("x"))), out(un("~", V("x"))), out(un("-", un("~", V("x")))), out(un("~", un("-", V("x"))))])]]
    files.append(File(p, add_cases(p, b), flat=True))
    # random expressions: the specification parses the token sequence itself
    for k in range(ctx.scale(6, 60)):
        p = Prog()
        bodies = []
        for c in range(20):
            names = r.sample(["a", "b", "c", "x1", "_y", "zz"], 3)
            ss = [das(n, I(r.choice(U))) for n in names]
            g = IntExpr(r, names, r.choice([0.2, 0.5, 1.0]))
            for _ in range(8): ss.append(out(g.i(r.choice([1, 2, 3, 3, 4, 5]))))
            bodies.append(ss)
        files.append(File(p, add_cases(p, bodies), flat=True))
    # operands that are parameters, fields, elements, captured variables, call results
    for k in range(ctx.scale(3, 30)):
        files.append(general_file(r, cases=12, strings=0, bigints=0.6, div=0.4, closures=0.1, enums=0, ternary=0.05, loops=0.05))
    # literal operands on either side and on both: every operator with boundary values
    L = [0, 1, -1, 2, -2, 3, 4, 7, 8, -8, 10, 16, 63, 64, 255, 256, 1024, -1024, (1 << 31) - 1, 1 << 31, -(1 << 31), 1 << 32, -(1 << 53), 1 << 61, MAXI, MAXI - 1, MINI + 1]
    p = Prog()
    bodies = []
    for op in ["+", "-", "*", "/", "&", "|", "^"]:
        for v in L:
            if op == "/" and v == 0: continue
            o = r.choice(L)
            inner = [out(bin_(op, V("x"), lit(v)))]
            inner2 = [out(bin_(op, lit(v), V("x")))]
            if op == "/": inner2 = [if_([(un("not", bin_("==", V("x"), lit(0))), inner2)])]
            ss = [each("x", arr([I(w) for w in U]), inner + inner2)]
            for w in r.sample(L, ctx.scale(8, len(L))):
                if op != "/" or w != 0: ss.append(out(bin_(op, lit(v), lit(w))))
            bodies.append(ss)
    for op in ["<<", ">>"]:
        for v in range(64):
            bodies.append([each("x", arr([I(w) for w in U]), [out(bin_(op, V("x"), lit(v)))])] + [out(bin_(op, lit(w), lit(v))) for w in r.sample(L, 6)])
        for v in L: bodies.append([range_("x", lit(0), lit(64), [out(bin_(op, lit(v), V("x")))])])
    for i in range(0, len(bodies), 80):
        p = Prog()
        files.append(File(p, add_cases(p, bodies[i:i + 80]), flat=True))
    # every way to write a value in every place an integer expression can stand
    for _ in range(ctx.scale(1, 6)): files += matrix(r, INT, lambda b: I(r.choice(U)))
    check_core(ctx, files, what="integer arithmetic")
    literals(ctx, r)


def literals(ctx, r):
    """which literals are accepted: decided by the specification (Literals.tla)"""
    import json as js
    ds = []
    for v in [0, 1, 9, MAXI - 1, MAXI, MAXI + 1, MAXI + 2, (1 << 63) - 1, 1 << 63, (1 << 64) - 1, 1 << 64, (1 << 64) + 5, 10 ** 18, 10 ** 19, 10 ** 25, 1 << 127]:
        ds += [str(v), "0x%x" % v, "0x%X" % v]
    for _ in range(ctx.scale(10, 60)):
        v = r.getrandbits(r.randint(58, 68))
        ds += [str(v), "0x%x" % v]
    ds = sorted(set(d for d in ds if d == "0" or d.startswith("0x") or not d.startswith("0")))
    recs = []

    def one(d):
        res = ctx.compile(b"fn main() {\n    x := " + d.encode() + b"\n    println(x)\n}\n")
        if res["rc"] == 0 and res["exe"]:
            rc, o, e = run([res["exe"]], scratch=ctx.dir)
            return dict(text=list(d.encode()), acc=True, out=list(o))
        return dict(text=list(d.encode()), acc=False, out=[])
    recs = ctx.pool(one, ds)
    f = ctx.path("lits.json")
    open(f, "w").write(js.dumps({"lits": recs}))
    res = tlc(ctx, "Literals", "SPECIFICATION Spec\nINVARIANT Agrees\nCHECK_DEADLOCK FALSE\nCONSTANTS\n  B = 512\n  LBits = 9\n  NL = 7\n", env={"LIT_JSON": f}, workers=2, extra=("-continue",))
    bad = sorted(set(int(x) for x in re.findall(r"BADLIT (\d+)", res.text)))
    if not bad: need_ok(res)
    ctx.count("literals", len(ds))
    ctx.validated += len(ds) - len(bad)
    for i in bad:
        ctx.violation("literal %s: %s, which the specification does not allow" % (ds[i - 1], "accepted and printed %r" % bytes(recs[i - 1]["out"]) if recs[i - 1]["acc"] else "rejected"),
                      {"literal.txt": ds[i - 1]})
        if ctx.too_many(): break


def c02(ctx):
    r = random.Random(ctx.seed * 7919 + 2)
    files = []
    p = Prog()
    p.add(Fn("idb", [("b", BOOL)], BOOL, expr=var("b", BOOL)))
    p.add(Struct("box", [("v", BOOL), ("n", INT)]))
    # every comparison of every pair: printed, and through a condition
    b = tables(CMP, U)
    for op in CMP:
        b.append([das("xs", arr([I(v) for v in U[::2]])), each("x", var("xs", ARR(INT)), [each("y", var("xs", ARR(INT)), [
            das("n", lit(0)), das("c", bin_(op, V("x"), V("y"))),
            if_([(bin_(op, V("x"), V("y")), [as_(V("n"), bin_("+", V("n"), lit(1)))])]),
            if_([(un("not", bin_(op, V("x"), V("y"))), [as_(V("n"), bin_("+", V("n"), lit(2)))])]),
            while_(bin_("and", var("c", BOOL), bin_("<", V("n"), lit(10))), [as_(V("n"), bin_("+", V("n"), lit(10)))]),
            out(tern(bin_(op, V("x"), V("y")), bin_("+", V("n"), lit(100)), bin_("-", V("n"), lit(100)))),
            expr(call("print", [call("toString", [call("idb", [bin_(op, V("x"), V("y"))], BOOL)], STRING)], NOTHING)),
            out(fld(call("Box", [bin_(op, V("x"), V("y")), V("n")], ST("box")), "v", BOOL)),
        ])])])
    tf = [true(), false()]
    ss = []
    for a, c in itertools.product([True, False], repeat=2):
        ss += [das("p%d%d" % (a, c), blit(a)), das("q%d%d" % (a, c), blit(c))]
        P, Q = var("p%d%d" % (a, c), BOOL), var("q%d%d" % (a, c), BOOL)
        for e in [bin_("and", P, Q), bin_("or", P, Q), un("not", P), bin_("and", un("not", P), Q), un("not", bin_("or", P, Q)),
                  bin_("or", bin_("and", P, Q), un("not", Q)), un("not", un("not", P)), bin_("and", P, bin_("or", Q, P)), bin_("or", P, bin_("and", Q, P))]:
            ss += [out(e), out(tern(e, lit(1), lit(2))), if_([(e, [out(lit(3))])], [out(lit(4))])]
    b.append(ss)
    files.append(File(p, add_cases(p, b), flat=True))
    for k in range(ctx.scale(6, 60)):
        p = Prog()
        p.add(Fn("tick", [("n", INT), ("b", BOOL)], BOOL, [out(V("n")), ret(var("b", BOOL))]))
        p.add(Fn("tock", [("n", INT)], INT, [out(V("n")), ret(bin_("*", V("n"), lit(3)))]))
        bodies = []
        for c in range(16):
            names, bools = ["a", "b", "c"], ["t", "u"]
            ss = [das(n, I(r.choice(U))) for n in names]
            g = IntExpr(r, names, 0.3)
            ss += [das("t", blit(r.random() < .5))]
            g.bools = ["t"]
            ss += [das("u", g.b(3))]
            g.bools = bools
            for _ in range(5):
                e = g.b(r.choice([1, 2, 3, 4]))
                k2 = r.randrange(6)
                if k2 == 0: ss.append(out(e))
                elif k2 == 1: ss.append(if_([(e, [out(lit(1))]), (g.b(2), [out(lit(2))])], [out(lit(3))]))
                elif k2 == 2: ss.append(out(tern(call("tick", [lit(r.randint(10, 20)), e], BOOL), call("tock", [g.i(1)], INT), call("tock", [lit(r.randint(30, 40))], INT))))
                elif k2 == 3: ss.append(out(tern(e, tern(g.b(2), slit("tt"), slit("tf")), tern(g.b(2), slit("ft"), slit("ff")))))
                elif k2 == 4: ss.append(out(tern(e, g.b(2), g.b(2))))
                else: ss.append(as_(var("u", BOOL), e)); ss.append(out(var("u", BOOL)))
            bodies.append(ss)
        files.append(File(p, add_cases(p, bodies), flat=True))
    for k in range(ctx.scale(3, 30)):
        files.append(general_file(r, cases=12, strings=0.1, bigints=0.3, ternary=0.8, tick=0.15, enums=0.05))
    L = [0, 1, -1, 2, -2, 7, 8, 255, 256, (1 << 31) - 1, 1 << 31, -(1 << 31), -(1 << 31) - 1, 1 << 32, (1 << 32) - 1, -(1 << 53), 1 << 61, MAXI, MAXI - 1, MINI + 1]
    bodies = []
    for op in CMP:
        for v in L:
            c1, c2 = bin_(op, V("x"), lit(v)), bin_(op, lit(v), V("x"))
            ss = [each("x", arr([I(w) for w in U + [v - 1, v + 1 if v < MAXI else v]]), [out(c1), out(c2), if_([(c1, [out(lit(1))])], [out(lit(2))]), out(tern(c2, lit(3), lit(4))), out(un("not", c1)), if_([(un("not", c2), [out(lit(5))]), (c2, [out(lit(6))])])])]
            for w in r.sample(L, 8): ss += [out(bin_(op, lit(v), lit(w))), if_([(bin_(op, lit(v), lit(w)), [out(lit(7))])])]
            bodies.append(ss)
    for i in range(0, len(bodies), 50):
        p = Prog()
        files.append(File(p, add_cases(p, bodies[i:i + 50]), flat=True))
    mkb = lambda b: r.choice([true(), false(), bin_(r.choice(CMP), I(r.choice(U)), I(r.choice(U)))])
    for _ in range(ctx.scale(2, 10)): files += matrix(r, BOOL, mkb)
    files += matrix(r, INT, lambda b: I(r.choice(U)), contexts={"c" + o for o in CMP})
    # ternaries of every type
    for t in (STRING, ARR(INT)): files += matrix(r, t, lambda b: tern(mkb(b), slit("ab") if t == STRING else arr([lit(1), lit(2)]), call("idT", [slit("cd") if t == STRING else arr([lit(3)])], t)), frac=0.5)
    check_core(ctx, files, what="comparisons and booleans")


def c03(ctx):
    r = random.Random(ctx.seed * 7919 + 3)
    files = []
    for k in range(ctx.scale(5, 50)):
        p = Prog()
        T = PAR("T")
        p.add(Fn("tk", [("tag", INT), ("x", T)], T, [out(V("tag")), ret(var("x", T))], tparams=("T",)))
        for n in range(1, 7):
            ps = [("abcdef"[j], INT) for j in range(n)]
            e = lit(0)
            for j, (nm, _) in enumerate(ps): e = bin_("+", bin_("*", e, lit(31)), V(nm))
            p.add(Fn("w%d" % n, ps, INT, expr=e))
            p.add(Fn("show%d" % n, ps, NOTHING, [out(V(nm)) for nm, _ in ps]))
        p.add(Struct("six", [("m%d" % j, INT) for j in range(6)]))
        p.add(Enum("five", [("Fa", [("p%d" % j, INT) for j in range(5)]), ("Fb", [("s", STRING), ("n", INT)])]))
        p.add(Fn("sum6", [("s", ST("six"))], INT, expr=bin_("-", fld(var("s", ST("six")), "m0", INT), bin_("*", fld(var("s", ST("six")), "m5", INT), lit(3)))))
        g = Gen(r, tick=0.25, strings=0.1, structs=0, enums=0, arrays=0.2, calls=0.6, div=0.5, ternary=0.25, closures=0.1, ext=0.1, bigints=0.15, gc=0)
        g.prog = p
        g.helpers.add("tk")
        g.fns = [("w%d" % n, [INT] * n, INT) for n in range(1, 7)]
        ft = [FN([INT] * n, INT) for n in (1, 2, 3, 4, 5)]
        p.add(Fn("make", [("n", INT)], FN([INT, INT], INT), [out(V("n")), ret(lam([("u", INT), ("v", INT)], INT, expr=bin_("-", bin_("*", V("u"), V("n")), V("v"))))]))
        bodies = []
        for c in range(14):
            env = [Var("a", INT), Var("b", INT), Var("s", STRING)]
            ss = [das("a", I(r.choice(U))), das("b", g.int_lit()), das("s", slit("s"))]
            E = lambda d=3: g.e(INT, env, d)
            for _ in range(4):
                n = r.choice([2, 3, 4, 5, 6, 6])
                k2 = r.randrange(11)
                if k2 <= 2: ss.append(expr(call("show%d" % n, [E() for _ in range(n)], NOTHING)))
                elif k2 == 3: ss.append(out(call("sum6", [call("Six", [E(2) for _ in range(6)], ST("six"))], INT)))
                elif k2 == 4:
                    v = g.fresh("o")
                    ss.append(das(v, call("Six", [E(2) for _ in range(6)], ST("six"))))
                    ss += [out(fld(var(v, ST("six")), "m%d" % j, INT)) for j in range(6)]
                elif k2 == 5:
                    ss.append(match(call("Fa", [E(2) for _ in range(5)], EN("five")), [("Fb", ["x", "y"], []), ("Fa", list("vwxyz"), [out(V(q)) for q in "vwxyz"])]))
                elif k2 == 6:
                    v = g.fresh("o")
                    ss.append(das(v, arr([E(2) for _ in range(r.randint(1, 7))])))
                    ss.append(each("el", var(v, ARR(INT)), [out(V("el"))]))
                elif k2 == 7: ss.append(out(dyn(call("make", [E(2)], FN([INT, INT], INT)), [E(2), E(2)], INT)))
                elif k2 == 8:
                    v = g.fresh("o")
                    ss.append(das(v, arr([lit(1), lit(2), lit(3), lit(4)])))
                    A = call("tk", [lit(70), var(v, ARR(INT))], ARR(INT))
                    ss.append(as_(idx(A, call("tk", [lit(71), bin_("&", E(1), lit(3))], INT)), call("tk", [lit(72), E(2)], INT)))
                    ss.append(each("el", var(v, ARR(INT)), [out(V("el"))]))
                elif k2 == 9:
                    ss.append(out(bin_(r.choice(["and", "or"]), call("tk", [lit(1), g.e(BOOL, env, 2)], BOOL), call("tk", [lit(2), g.e(BOOL, env, 2)], BOOL))))
                else: ss.append(out(E(5)))
            bodies.append(ss)
        files.append(File(p, add_cases(p, bodies), externs=g.externs))
    for k in range(ctx.scale(4, 40)):
        files.append(general_file(r, cases=10, tick=0.3, calls=0.6, div=0.4, ternary=0.25, funcs=5, bigints=0.1))
    for _ in range(ctx.scale(2, 4)): files += state_matrix(r, False)
    if ctx.thorough: files += state_matrix(r, True)[:400]
    files += matrix(r, INT, lambda b: call("noise", [I(r.choice(U))], INT), frac=ctx.scale(0.4, 1.0))
    check_core(ctx, files, what="evaluation order")


def nested_flow(r, d, vals, rt):
    """random nesting of control flow that prints where it is"""
    def cond():
        k = r.randrange(4)
        if k == 0: return bin_(r.choice(CMP), V("x"), lit(r.randint(-1, 4)))
        if k == 1: return bin_(r.choice(CMP), V("y"), V("x"))
        if k == 2: return bin_("==", call("mod", [bin_("+", V("x"), V("y")), lit(r.choice([2, 3]))], INT), lit(r.choice([0, 1])))
        return bin_(r.choice(["and", "or"]), bin_(">", V("x"), lit(r.randint(0, 3))), un("not", bin_("<", V("y"), lit(r.randint(0, 3)))))

    cnt = [0]

    def block(d):
        ss = []
        for _ in range(r.randint(1, 3)):
            k = r.randrange(9)
            tag = out(lit(r.randint(0, 999)))
            if d <= 0 or k == 0: ss.append(tag)
            elif k in (1, 2): ss.append(if_([(cond(), block(d - 1)) for _ in range(r.choice([1, 1, 2, 3, 4]))], block(d - 1) if r.random() < .6 else None))
            elif k == 3: ss.append(range_("i%d" % d, r.choice([lit(r.randint(-2, 3)), V("x")]), r.choice([lit(r.randint(1, 4)), V("y"), bin_("-", V("y"), lit(1))]), [out(V("i%d" % d))] + block(d - 1)))
            elif k == 4: ss.append(range_("i%d" % d, r.choice([lit(r.randint(-1, 4)), V("y")]), lit(0), [out(V("i%d" % d))] + block(d - 1)))
            elif k == 5:
                cnt[0] += 1
                v = "w%d" % cnt[0]
                ss += [das(v, lit(0)), while_(bin_("and", bin_("<", V(v), lit(r.randint(0, 4))), r.choice([true(), cond()])), [as_(V(v), bin_("+", V(v), lit(1)))] + block(d - 1))]
            elif k == 6: ss.append(each("e%d" % d, arr([lit(r.randint(0, 9)) for _ in range(r.randint(1, 4))]), [out(V("e%d" % d))] + block(d - 1)))
            elif k == 7: ss.append(if_([(cond(), [tag, ret(None if rt == NOTHING else bin_("+", V("x"), lit(r.randint(0, 99))))])]))
            else: ss.append(match(r.choice([call("Aa", [V("x")], EN("sw")), call("Bb", [], EN("sw")), call("choose", [V("x")], EN("sw"))]),
                                  [("Aa", ["q%d" % d], [out(V("q%d" % d))] + block(d - 1)), ("Bb", [], block(d - 1))] if r.random() < .5 else
                                  [("Bb", [], block(d - 1)), ("Aa", ["q%d" % d], block(d - 1))]))
        return ss
    return block(d)


def c04(ctx):
    r = random.Random(ctx.seed * 7919 + 4)
    files = []
    p = Prog()
    sw = EN("sw")
    # all small ranges, both directions, and ranges at the ends of the integers
    bodies = []
    for a in range(-3, 4):
        ss = []
        for b in range(-3, 5):
            if b != 0: ss.append(range_("i", lit(a), lit(b), [out(V("i"))]))
            ss += [das("lo%d" % (b + 3), lit(a)), das("hi%d" % (b + 3), lit(b)), range_("i", V("lo%d" % (b + 3)), V("hi%d" % (b + 3)), [out(V("i"))]), out(lit(1000 + b))]
        ss += [range_("i", lit(a), lit(0), [out(V("i"))]), das("z", lit(a)), range_("i", bin_("+", V("z"), lit(2)), lit(0), [out(V("i"))])]
        bodies.append(ss)
    bodies.append([range_("i", lit(MAXI - 3), lit(MAXI), [out(V("i"))]), range_("i", I(MINI), lit(MINI + 2), [out(V("i"))]), range_("i", lit(5), lit(MINI + 1), [out(V("i"))])])
    bodies.append([das("s", lit(0)), range_("i", lit(0), lit(60), [range_("j", V("i"), lit(0), [as_(V("s"), bin_("+", V("s"), V("j")))])]), out(V("s"))])
    # array loops: arrays of every length 1..9, array expression with effects evaluated once
    p.add(Fn("mk", [("n", INT)], ARR(INT), [out(slit("mk")), das("a", call("array", [V("n"), lit(0)], ARR(INT))), range_("i", lit(0), V("n"), [as_(idx(var("a", ARR(INT)), V("i")), bin_("*", V("i"), lit(7)))]), ret(var("a", ARR(INT)))]))
    bodies.append([range_("n", lit(0), lit(10), [each("x", call("mk", [V("n")], ARR(INT)), [out(V("x"))]), out(slit("-"))])])
    bodies.append([das("a", call("mk", [lit(5)], ARR(INT))), each("x", var("a", ARR(INT)), [as_(idx(var("a", ARR(INT)), lit(4)), lit(99)), each("y", var("a", ARR(INT)), [out(bin_("+", V("x"), V("y")))])])])
    bodies.append([each("x", call("mk", [lit(3)], ARR(INT)), [each("y", call("mk", [lit(2)], ARR(INT)), [range_("z", lit(2), lit(0), [out(bin_("+", bin_("*", V("x"), lit(100)), bin_("+", bin_("*", V("y"), lit(10)), V("z"))))])])])])
    files.append(File(p, add_cases(p, bodies)))
    for k in range(ctx.scale(7, 70)):
        p = Prog()
        p.add(Enum("sw", [("Aa", [("n", INT)]), ("Bb", [])]))
        p.add(Fn("choose", [("n", INT)], sw, expr=tern(bin_(">", V("n"), lit(1)), call("Aa", [bin_("*", V("n"), lit(5))], sw), call("Bb", [], sw))))
        bodies = []
        for c in range(12):
            rt = r.choice([INT, INT, NOTHING])
            b = nested_flow(r, r.choice([2, 3, 3, 4]), None, rt)
            if rt == INT: b.append(ret(V("y")))
            f = "flow%d" % c
            p.add(Fn(f, [("x", INT), ("y", INT)], rt, b))
            ss = []
            for _ in range(4):
                e = call(f, [lit(r.randint(-1, 4)), lit(r.randint(-1, 4))], rt)
                ss += [out(e) if rt == INT else expr(e), out(slit("="))]
            bodies.append(ss)
        files.append(File(p, add_cases(p, bodies)))
    for k in range(ctx.scale(3, 30)):
        files.append(general_file(r, cases=10, loops=0.8, returns=0.6, blocks=3, stmts=7, depth=3))
    files += forms2.flow_matrix(r, ctx.scale(1, 8))
    files += forms2.loop_matrix(r)
    if ctx.thorough: files += forms2.loop_matrix(r)
    check_core(ctx, files, what="control flow")


def c05(ctx):
    r = random.Random(ctx.seed * 7919 + 5)
    files = []
    for k in range(ctx.scale(4, 40)):
        p = Prog()
        E1 = EN("opt")
        p.add(Enum("opt", [("Has", [("x", INT)]), ("Hasnt", [])]))
        # deep shadowing of the same two names in nested scopes
        def shadow(d, scope):
            ss = []
            declared = set(scope)
            for _ in range(r.randint(2, 4)):
                k2 = r.randrange(8)
                n = r.choice(["x", "y"])
                if k2 == 0 and n not in declared:
                    declared.add(n)
                    ss.append(das(n, bin_("+", V(r.choice(["x", "y"])), lit(r.randint(1, 9)))))
                elif k2 == 1: ss.append(as_(V(n), bin_("+", V(r.choice(["x", "y"])), lit(r.randint(10, 99)))))
                elif k2 == 2 or d <= 0: ss.append(out(V(n)))
                elif k2 == 3: ss.append(if_([(bin_(">", V(n), lit(r.randint(0, 50))), shadow(d - 1, ()))], shadow(d - 1, ())))
                elif k2 == 4: ss.append(range_(n, lit(r.randint(0, 2)), lit(r.randint(2, 4)), shadow(d - 1, (n,)) + [out(V(n))]) if True else None)
                elif k2 == 5: ss.append(each(n, arr([lit(r.randint(0, 99)), V("x")]), shadow(d - 1, (n,))))
                elif k2 == 6: ss.append(match(r.choice([call("Has", [V(n)], E1), call("Hasnt", [], E1)]), [("Has", [n], shadow(d - 1, (n,))), ("Hasnt", [], shadow(d - 1, ()))]))
                else: ss.append(out(dyn(lam([(n, INT)], INT, body=shadow(d - 1, (n,)) + [ret(V(n))]), [V(r.choice(["x", "y"]))], INT)))
            return ss
        # range variables must not be assigned in the body (that would change the iteration)
        def strip(ss, names):
            res = []
            for s in ss:
                if s.k == "as" and s.tgt.k == "var" and s.tgt.n in names: continue
                if s.k == "range": s.body = strip(s.body, names | {s.n})
                elif s.k == "each": s.body = strip(s.body, names - {s.n})
                elif s.k == "if": s.pairs = [(c, strip(b, names)) for c, b in s.pairs]; s.els = strip(s.els, names) if s.els is not None else None
                elif s.k == "match": s.cases = [(c, vs, strip(b, names - set(vs))) for c, vs, b in s.cases]
                elif s.k == "das": names = names - {s.n}
                res.append(s)
            return res
        bodies = []
        for c in range(10):
            b = strip(shadow(3, ()), set())
            bodies.append([das("x", lit(r.randint(0, 9))), das("y", lit(r.randint(10, 50))), if_([(true(), b)]), out(V("x")), out(V("y"))])
        # recursion: locals survive the recursive calls
        n = r.randint(3, 6)
        p.add(Fn("fib", [("n", INT)], INT, [if_([(bin_("<", V("n"), lit(2)), [ret(V("n"))])]), das("a", call("fib", [bin_("-", V("n"), lit(1))], INT)), das("b", call("fib", [bin_("-", V("n"), lit(2))], INT)),
                                        as_(V("n"), bin_("+", V("a"), V("b"))), ret(V("n"))]))
        p.add(Fn("ack", [("m", INT), ("n", INT)], INT, expr=tern(bin_("==", V("m"), lit(0)), bin_("+", V("n"), lit(1)), tern(bin_("==", V("n"), lit(0)), call("ack", [bin_("-", V("m"), lit(1)), lit(1)], INT),
                 call("ack", [bin_("-", V("m"), lit(1)), call("ack", [V("m"), bin_("-", V("n"), lit(1))], INT)], INT)))))
        p.add(Fn("even", [("n", INT), ("depth", INT)], BOOL, [das("mine", bin_("*", V("depth"), lit(10))), if_([(bin_("==", V("n"), lit(0)), [out(V("mine")), ret(true())])]),
                 das("r", call("odd", [bin_("-", V("n"), lit(1)), bin_("+", V("depth"), lit(1))], BOOL)), out(V("mine")), ret(var("r", BOOL))]))
        p.add(Fn("odd", [("n", INT), ("depth", INT)], BOOL, [das("own", bin_("+", V("depth"), lit(5))), if_([(bin_("==", V("n"), lit(0)), [ret(false())])]), das("t", slit("o")),
                 das("r", call("even", [bin_("-", V("n"), lit(1)), bin_("+", V("depth"), lit(1))], BOOL)), out(V("own")), expr(call("print", [var("t", STRING)], NOTHING)), ret(var("r", BOOL))]))
        nl = r.randint(2, 5)
        loc = ["l%d" % i for i in range(nl)]
        body = [das(x, bin_("+", bin_("*", V("n"), lit(10)), lit(i))) for i, x in enumerate(loc)]
        body += [das("u", arr([V("n"), V(loc[0])])), if_([(bin_(">", V("n"), lit(0)), [das("s", lit(r.randint(0, 9))), expr(call("rec", [bin_("-", V("n"), lit(1)), V("s"), bin_("+", V("b"), V(loc[-1]))], INT)), out(V("s"))])])]
        body += [out(V(x)) for x in loc] + [out(idx(var("u", ARR(INT)), lit(1))), as_(V("b"), bin_("+", V("b"), lit(1))), out(V("b")), ret(bin_("+", V("a"), V(loc[0])))]
        p.add(Fn("rec", [("n", INT), ("a", INT), ("b", INT)], INT, body))
        p.add(Fn("mod6", [("%s" % c, INT) for c in "abcdef"], INT, [as_(V(c), bin_("+", V(c), lit(i + 1))) for i, c in enumerate("abcdef")] + [ret(bin_("+", V("a"), V("f")))]))
        bodies.append([out(call("fib", [lit(n)], INT)), out(call("ack", [lit(1), lit(r.randint(0, 3))], INT)), out(call("even", [lit(r.randint(0, 5)), lit(1)], BOOL))])
        bodies.append([das("b", lit(7)), out(call("rec", [lit(r.randint(0, 4)), V("b"), lit(3)], INT)), out(V("b"))])
        vs = [das("v%s" % c, lit(r.randint(0, 99))) for c in "abcdef"]
        bodies.append(vs + [out(call("mod6", [V("v%s" % c) for c in "abcdef"], INT))] + [out(V("v%s" % c)) for c in "abcdef"])
        files.append(File(p, add_cases(p, bodies)))
    for k in range(ctx.scale(6, 60)):
        files.append(general_file(r, cases=10, shadow=0.75, blocks=3, loops=0.4, closures=0.25, stmts=8, depth=3, enums=0.3))
    files += forms2.scope_matrix(r, ctx.scale(3, 15))
    check_core(ctx, files, what="scope and locals")
