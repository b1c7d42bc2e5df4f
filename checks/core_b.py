"""C06-C10: closures, calls, structs, enums, arrays."""
import random
from clara import *
from core import *
from gen import *
from forms import *
import forms2, forms3, forms4, forms5
from core_a import I, V, U, add_cases

S = STRING


def sv(n): return var(n, S)


def c06(ctx):
    r = random.Random(ctx.seed * 7919 + 6)
    files = []
    F1 = FN([INT], INT)
    F0 = FN([], INT)
    for k in range(ctx.scale(6, 60)):
        p = Prog()
        p.add(Struct("cell", [("v", INT), ("s", S)]))
        p.add(Struct("holder", [("f", F1), ("n", INT)]))
        C = ST("cell")
        bodies = []
        names = ["a", "b", "c", "d", "e", "f1"]
        for c in range(8):
            # m captured variables of mixed types, assigned after creation, read in random order
            m = r.randint(1, 6)
            ss = []
            kinds = []
            for n in names[:m]:
                kd = r.choice(["int", "int", "string", "cell", "arr", "bool"])
                kinds.append(kd)
                e = {"int": I(r.choice(U)), "string": slit(r.choice(["p", "qq", ""])), "cell": call("Cell", [lit(r.randint(0, 9)), slit("z")], C),
                     "arr": arr([lit(r.randint(0, 9)) for _ in range(3)]), "bool": blit(r.random() < .5)}[kd]
                ss.append(das(n, e))
            typ = {"int": INT, "string": S, "cell": C, "arr": ARR(INT), "bool": BOOL}
            def reads(shuffle=True):
                order = list(range(m))
                if shuffle: r.shuffle(order)
                res = []
                for j in order:
                    x = var(names[j], typ[kinds[j]])
                    if kinds[j] in ("int", "string", "bool"): res.append(out(x))
                    elif kinds[j] == "cell": res.append(out(fld(x, "v", INT)))
                    else: res.append(out(idx(x, lit(r.randint(0, 2)))))
                return res
            ss.append(das("cl", lam([("k", INT)], INT, body=reads() + [ret(bin_("+", V("k"), lit(1)))])))
            ss.append(das("cl2", lam([("k", INT)], INT, body=reads() + [ret(bin_("*", V("k"), lit(2)))])))
            for j in range(m):
                x = var(names[j], typ[kinds[j]])
                if kinds[j] == "int": ss.append(as_(x, bin_("+", x, lit(1))))
                elif kinds[j] == "string": ss.append(as_(x, call("append", [x, slit("!")], S)))
                elif kinds[j] == "cell": ss.append(as_(fld(x, "v", INT), lit(77)) if r.random() < .5 else as_(x, call("Cell", [lit(88), slit("n")], C)))
                elif kinds[j] == "arr": ss.append(as_(idx(x, lit(1)), lit(66)) if r.random() < .5 else as_(x, arr([lit(5), lit(5), lit(5)])))
                else: ss.append(as_(x, un("not", x)))
            if r.random() < .5: ss.append(expr(call("gc", [], NOTHING)))
            ss += [out(call("cl", [lit(1)], INT)), out(call("cl2", [lit(5)], INT))] + reads(False)
            ss += [out(call("cl", [lit(2)], INT))]
            bodies.append(ss)
        # nested closures: each level captures from every outer level, several instances
        d = r.randint(2, 4)

        def nest(level):
            """an expression of type fn(int) ... int nested `level` deep; parameters x<level>"""
            vis = ["x%d" % j for j in range(d, level - 1, -1)] + ["base"]
            if level == 1:
                e = lit(0)
                for n in r.sample(vis, min(len(vis), r.randint(1, 5))): e = bin_("+", bin_("*", e, lit(3)), V(n))
                return lam([("x1", INT)], INT, expr=e)
            inner = nest(level - 1)
            if r.random() < .4: return lam([("x%d" % level, INT)], inner.t, expr=inner)
            return lam([("x%d" % level, INT)], inner.t, body=[das("t%d" % level, bin_("+", V("x%d" % level), V("base"))), out(V("t%d" % level)), ret(inner)])
        n = nest(d)
        p.add(Fn("build", [("base", INT)], n.t, [as_(V("base"), bin_("+", V("base"), lit(1))), ret(n)]))
        ss = [das("f", call("build", [lit(r.randint(0, 9))], n.t)), das("g", call("build", [lit(r.randint(10, 19))], n.t))]
        for v in ["f", "g", "f"]:
            e, t = var(v, n.t), n.t
            for j in range(d):
                e = dyn(e, [lit(r.randint(0, 9))], t[2])
                t = t[2]
            ss.append(out(e))
        t = n.t[2]
        if d > 1:
            ss += [das("h1", call("f", [lit(3)], t)), das("h2", call("f", [lit(4)], t))]
            for v in ("h1", "h2", "h1"):
                e, tt = call(v, [lit(r.randint(0, 9))], t[2]), t[2]
                while tt != INT:
                    e = dyn(e, [lit(r.randint(0, 9))], tt[2]); tt = tt[2]
                ss.append(out(e))
        bodies.append(ss)
        # counters: a captured variable assigned inside belongs to that function value alone
        p.add(Fn("counter", [("start", INT), ("step", INT)], F0, [ret(lam([], INT, body=[as_(V("start"), bin_("+", V("start"), V("step"))), ret(V("start"))]))]))
        bodies.append([das("a", call("counter", [lit(1), lit(2)], F0)), das("b", call("counter", [lit(100), lit(3)], F0))] +
                      [out(call(r.choice("ab"), [], INT)) for _ in range(6)] +
                      [das("fs", arr([var("a", F0), var("b", F0), call("counter", [lit(5), lit(5)], F0)])), each("f", var("fs", ARR(F0)), [out(call("f", [], INT))]), out(dyn(idx(var("fs", ARR(F0)), lit(2)), [], INT)), out(call("a", [], INT))])
        # created in a loop; kept in arrays and structs; called from elsewhere
        nn = r.randint(2, 4)
        p.add(Fn("apply", [("f", F1), ("n", INT)], INT, expr=call("f", [V("n")], INT)))
        p.add(Fn("plain", [("n", INT)], INT, expr=bin_("-", lit(50), V("n"))))
        AF = ARR(F1)
        bodies.append([das("fs", call("array", [lit(nn), var("plain", F1)], AF)), das("q", lit(r.randint(1, 5))),
                       range_("i", lit(0), lit(nn), [das("sq", bin_("*", V("i"), V("i"))), if_([(un("not", bin_("==", V("i"), lit(1))), [as_(idx(var("fs", AF), V("i")), lam([("z", INT)], INT, expr=bin_("+", bin_("*", V("z"), V("q")), bin_("+", V("sq"), V("i")))))])]), as_(V("q"), bin_("+", V("q"), lit(10)))]),
                       each("f", var("fs", AF), [out(call("f", [lit(2)], INT)), out(call("apply", [var("f", F1), lit(3)], INT))]),
                       das("h", call("Holder", [idx(var("fs", AF), lit(0)), lit(4)], ST("holder"))), out(dot(var("h", ST("holder")), "f", [lit(9)], INT)),
                       as_(fld(var("h", ST("holder")), "f", F1), lam([("z", INT)], INT, expr=bin_("+", fld(var("h", ST("holder")), "n", INT), V("z")))), as_(fld(var("h", ST("holder")), "n", INT), lit(40)),
                       out(dot(var("h", ST("holder")), "f", [lit(2)], INT)), out(call("apply", [fld(var("h", ST("holder")), "f", F1), lit(1)], INT)), out(call("apply", [var("plain", F1), lit(8)], INT))])
        files.append(File(p, add_cases(p, bodies)))
    for k in range(ctx.scale(5, 50)):
        files.append(general_file(r, cases=10, closures=0.6, depth=4, shadow=0.3, calls=0.3))
    files += forms2.capture_matrix(r, ctx.scale(8, 40))
    check_core(ctx, files, what="closures")


def c07(ctx):
    r = random.Random(ctx.seed * 7919 + 7)
    files = []
    for k in range(ctx.scale(6, 60)):
        p = Prog()
        for i in range(3):
            p.add(Struct("s%d" % i, [("n", INT), ("g", FN([INT], INT))] if i == 2 else [("n", INT), ("m", INT)][:i + 1]))
        p.add(Enum("e1", [("Ea", [("n", INT)]), ("Eb", [])]))
        p.add(Struct("duo", [("l", PAR("A")), ("r", PAR("B"))], ("A", "B")))
        A, B, T = PAR("A"), PAR("B"), PAR("T")
        D = lambda a, b: ST("duo", a, b)
        base = [INT, BOOL, STRING, BYTES, ST("s0"), ST("s1"), EN("e1"), ARR(INT), ARR(STRING), ARR(ARR(INT)), FN([INT], INT), FN([], INT), FN([INT, INT], INT), D(INT, STRING), D(STRING, INT), ARR(D(INT, INT))]

        def value(t):
            """an expression of that type"""
            return {"int": lambda: lit(r.randint(0, 99)), "bool": lambda: blit(r.random() < .5), "string": lambda: slit(r.choice(["u", "vv"])), "bytes": lambda: call("Bytes", [lit(3)], BYTES),
                    "arr": lambda: arr([value(t[1]) for _ in range(2)]),
                    "fn": lambda: lam([("z%d" % i, x) for i, x in enumerate(t[1])], t[2], expr=value(t[2])),
                    "en": lambda: r.choice([call("Ea", [lit(3)], t), call("Eb", [], t)]),
                    "st": lambda: {"s0": lambda: call("S0", [lit(1)], t), "s1": lambda: call("S1", [lit(1), lit(2)], t), "s2": lambda: call("S2", [lit(1), value(FN([INT], INT))], t),
                                   "duo": lambda: call("Duo", [value(t[2][0]), value(t[2][1])], t)}[t[1]]()}[t[0]]()
        # an overload set: distinct parameter lists, each prints its number and returns it
        bodies = []
        decls = []
        for o in range(3):
            name = r.choice(["ovl", "run", "Pick", "λ"]) + "_%d" % o
            sigs = set()
            while len(sigs) < r.randint(3, 8):
                sigs.add(tuple(r.choice(base) for _ in range(r.randint(1, 4))))
            sigs = list(sigs)
            sigs.sort(key=str)
            r.shuffle(sigs)
            for i, sg in enumerate(sigs):
                rt = r.choice([INT, STRING, BOOL])
                b = [out(lit(1000 * (o + 1) + i))] + [out(var("p%d" % j, t)) for j, t in enumerate(sg) if t in (INT, BOOL, STRING)]
                decls.append(Fn(name, [("p%d" % j, t) for j, t in enumerate(sg)], rt, b + [ret({INT: lit(i), STRING: slit("r%d" % i), BOOL: blit(i % 2)}[rt])]))
                for rep in range(2):
                    args = [value(t) for t in sg]
                    if r.random() < .4 and args[0].k in ("call", "str", "arr") and not (sg[0][0] == "st" and sg[0][1] == "duo" and False):
                        e = dot(args[0], name, args[1:], rt)
                    else: e = call(name, args, rt)
                    bodies.append([out(e)])
        # overloads selected by the expected type of a function value
        sg1 = [(INT,), (STRING,), (INT, INT), (BOOL,)]
        for i, sg in enumerate(sg1):
            decls.append(Fn("sel", [("p%d" % j, t) for j, t in enumerate(sg)], INT, [out(lit(7000 + i)), ret(lit(i))]))
        for i, sg in enumerate(sg1):
            decls.append(Fn("use%d" % i, [("f", FN(sg, INT))], INT, expr=call("f", [value(t) for t in sg], INT)))
            bodies.append([out(call("use%d" % i, [var("sel", FN(sg, INT))], INT))])
        # generic functions at many types
        decls.append(Fn("same", [("x", T)], T, expr=var("x", T), tparams=("T",)))
        decls.append(Fn("flip", [("d", D(A, B))], D(B, A), expr=call("Duo", [fld(var("d", D(A, B)), "r", B), fld(var("d", D(A, B)), "l", A)], D(B, A)), tparams=("A", "B")))
        decls.append(Fn("after", [("f", FN([A], B)), ("g", FN([B], T))], FN([A], T), expr=lam([("x", A)], T, expr=call("g", [call("f", [var("x", A)], B)], T)), tparams=("A", "B", "T")))
        decls.append(Fn("last", [("xs", ARR(T))], T, [das("n", fld(var("xs", ARR(T)), "length", INT)), ret(idx(var("xs", ARR(T)), bin_("-", V("n"), lit(1))))], tparams=("T",)))
        decls.append(Fn("fold", [("xs", ARR(A)), ("z", B), ("f", FN([B, A], B))], B, [each("x", var("xs", ARR(A)), [as_(var("z", B), call("f", [var("z", B), var("x", A)], B))]), ret(var("z", B))], tparams=("A", "B")))
        decls.append(Fn("times", [("n", INT), ("x", T), ("f", FN([T], T))], T, expr=tern(bin_("==", V("n"), lit(0)), var("x", T), call("times", [bin_("-", V("n"), lit(1)), call("f", [var("x", T)], T), var("f", FN([T], T))], T)), tparams=("T",)))
        it = lambda b: lam([("z", INT)], INT, expr=bin_("+", V("z"), lit(b)))
        bodies.append([out(call("same", [lit(5)], INT)), out(call("same", [slit("five")], STRING)), out(call("same", [true()], BOOL)), out(fld(call("same", [call("S1", [lit(3), lit(4)], ST("s1"))], ST("s1")), "m", INT)),
                       out(dyn(call("same", [it(9)], FN([INT], INT)), [lit(1)], INT)), out(idx(call("same", [arr([slit("a"), slit("b")])], ARR(STRING)), lit(1)))])
        bodies.append([das("d", call("Duo", [lit(1), slit("one")], D(INT, STRING))), das("e", call("flip", [var("d", D(INT, STRING))], D(STRING, INT))), out(fld(var("e", D(STRING, INT)), "l", STRING)), out(fld(var("e", D(STRING, INT)), "r", INT)),
                       das("g", call("flip", [call("flip", [var("d", D(INT, STRING))], D(STRING, INT))], D(INT, STRING))), out(fld(var("g", D(INT, STRING)), "l", INT)),
                       das("nn", call("Duo", [var("d", D(INT, STRING)), var("e", D(STRING, INT))], D(D(INT, STRING), D(STRING, INT)))), out(fld(fld(call("flip", [var("nn", D(D(INT, STRING), D(STRING, INT)))], D(D(STRING, INT), D(INT, STRING))), "l", D(STRING, INT)), "l", STRING))])
        bodies.append([das("h", call("after", [it(2), lam([("z", INT)], STRING, expr=call("toString", [bin_("*", V("z"), lit(10))], STRING))], FN([INT], STRING))), out(call("h", [lit(4)], STRING)),
                       das("h2", call("after", [var("h", FN([INT], STRING)), lam([("t", STRING)], BOOL, expr=bin_(">", fld(sv("t"), "length", INT), lit(2)))], FN([INT], BOOL))), out(call("h2", [lit(4)], BOOL)), out(call("h2", [lit(400)], BOOL))])
        bodies.append([out(call("last", [arr([lit(1), lit(2), lit(3)])], INT)), out(call("last", [arr([slit("x"), slit("y")])], STRING)), out(fld(call("last", [arr([call("S0", [lit(8)], ST("s0"))])], ST("s0")), "n", INT)),
                       out(dot(arr([lit(1), lit(2)]), "fold", [slit("#"), lam([("u", STRING), ("v", INT)], STRING, expr=dot(sv("u"), "append", [call("toString", [V("v")], STRING)], STRING))], STRING)),
                       out(call("fold", [arr([slit("a"), slit("bcd")]), lit(0), lam([("u", INT), ("v", STRING)], INT, expr=bin_("+", V("u"), fld(sv("v"), "length", INT)))], INT)),
                       out(call("times", [lit(4), lit(1), lam([("z", INT)], INT, expr=bin_("*", V("z"), lit(3)))], INT)), out(call("times", [lit(3), slit("a"), lam([("z", STRING)], STRING, expr=call("append", [sv("z"), slit("b")], STRING))], STRING))])
        # a struct field wins over a function of that name; functions on structs otherwise
        decls.append(Fn("g", [("x", ST("s2")), ("n", INT)], INT, expr=lit(-1)))
        decls.append(Fn("h", [("x", ST("s2")), ("n", INT)], INT, expr=bin_("-", fld(var("x", ST("s2")), "n", INT), V("n"))))
        decls.append(Fn("n", [("x", ST("s1"))], INT, expr=lit(-2)))
        bodies.append([das("o", call("S2", [lit(30), it(100)], ST("s2"))), out(dot(var("o", ST("s2")), "g", [lit(1)], INT)), out(dot(var("o", ST("s2")), "h", [lit(1)], INT)), out(call("h", [var("o", ST("s2")), lit(2)], INT)), out(call("g", [var("o", ST("s2")), lit(2)], INT)),
                       das("q", call("S1", [lit(5), lit(6)], ST("s1"))), out(fld(var("q", ST("s1")), "n", INT))])
        # a local function variable or parameter shadows a function of the same name
        decls.append(Fn("shadowed", [("n", INT)], INT, expr=lit(-3)))
        bodies.append([out(call("shadowed", [lit(1)], INT)), das("shadowed", it(10)), out(call("shadowed", [lit(1)], INT)), if_([(true(), [das("shadowed", it(20)), out(call("shadowed", [lit(1)], INT))])]), out(call("shadowed", [lit(2)], INT))])
        # function values with 0..5 arguments reached through every kind of place, compared with the direct call
        for n in range(0, 6):
            ps = [("a%d" % i, INT) for i in range(n)]
            e = lit(n)
            for i in range(n): e = bin_("+", bin_("*", e, lit(7)), V("a%d" % i))
            decls.append(Fn("dir%d" % n, ps, INT, expr=e))
            ft = FN([INT] * n, INT)
            decls.append(Struct("hold%d" % n, [("f", ft)]))
            decls.append(Fn("get%d" % n, [("k", INT)], ft, expr=var("dir%d" % n, ft)))
            decls.append(Fn("via%d" % n, [("f", ft)] + ps[:5], INT, expr=call("f", [V(a) for a, _ in ps], INT)))
            av = [I(r.choice(U)) for _ in range(n)]
            cl = lam([("b%d" % i, INT) for i in range(n)], INT, expr=bin_("+", call("dir%d" % n, [V("b%d" % i) for i in range(n)], INT), V("off")))
            h = ST("hold%d" % n)
            bodies.append([das("off", lit(r.randint(1, 9))), out(call("dir%d" % n, av, INT)), das("f", var("dir%d" % n, ft)), out(call("f", av, INT)), das("h", call("Hold%d" % n, [var("dir%d" % n, ft)], h)), out(dot(var("h", h), "f", av, INT)),
                           das("xs", arr([var("f", ft), cl])), out(dyn(idx(var("xs", ARR(ft)), lit(0)), av, INT)), out(dyn(idx(var("xs", ARR(ft)), lit(1)), av, INT)), out(dyn(call("get%d" % n, [lit(0)], ft), av, INT)),
                           out(call("via%d" % n, [var("dir%d" % n, ft)] + av, INT)), out(call("via%d" % n, [cl] + av, INT)), as_(fld(var("h", h), "f", ft), cl), out(dot(var("h", h), "f", av, INT)), each("g", var("xs", ARR(ft)), [out(call("g", av, INT))])])
        r.shuffle(decls)
        for d in decls: p.add(d)
        files.append(File(p, add_cases(p, bodies)))
    for k in range(ctx.scale(3, 30)):
        files.append(general_file(r, cases=10, calls=0.6, generics=0.5, closures=0.3, funcs=7))
    files += forms3.overload_files(r, ctx.scale(8, 40))
    files += forms4.generic_files(r, ctx.scale(3, 30))
    files += forms5.mixed_overloads(r, ctx.scale(8, 60))
    check_core(ctx, files, what="calls and overloads")


def c08(ctx):
    r = random.Random(ctx.seed * 7919 + 8)
    files = []
    for k in range(ctx.scale(7, 70)):
        p = Prog()
        # one struct per number of fields, field types mixed, recursive through arrays and other structs
        sts = []
        T1 = Struct("gen", [("x", PAR("A")), ("n", INT), ("y", PAR("B"))], ("A", "B"))
        p.add(T1)
        for n in range(1, 7):
            fs = []
            for j in range(n):
                fs.append(("%s%d" % (r.choice(["f", "length", "x", "_v"]), j), r.choice([INT, INT, STRING, BOOL, ARR(INT), FN([INT], INT)] + [ST(s.name) for s in sts[-2:]] + [ST("gen", INT, STRING), ST("gen", STRING, BOOL)])))
            s = Struct("r%d" % n, fs)
            sts.append(s)
            p.add(s)
        g = Gen(r, structs=0.6, arrays=0.3, closures=0.15, strings=0.2, depth=3, bigints=0.2, enums=0, gc=0.05)
        g.prog = p
        g.structs = [T1] + sts
        for _ in range(2): g.function()
        # functions that modify their argument
        for s in sts:
            t = ST(s.name)
            for j, (fn_, ft) in enumerate(s.fields):
                p.add(Fn("set_%s_%d" % (s.name, j), [("o", t), ("v", ft)], t, [as_(fld(var("o", t), fn_, ft), var("v", ft)), ret(var("o", t))]))
        bodies = []
        for c in range(10):
            s = r.choice(sts)
            t = ST(s.name)
            env = []
            ss = [das("o1", g.leaf(t, [], 2)), das("o2", g.leaf(t, [], 2)), das("al", var("o1", t)), das("xs", arr([var("o1", t), var("o2", t), var("al", t)]))]
            O = [var("o1", t), var("o2", t), var("al", t), idx(var("xs", ARR(t)), lit(0)), idx(var("xs", ARR(t)), lit(1)), idx(var("xs", ARR(t)), lit(2))]
            for step in range(r.randint(3, 7)):
                j = r.randrange(len(s.fields))
                fn_, ft = s.fields[j]
                o = r.choice(O)
                kk = r.randrange(5)
                if kk <= 1: ss.append(as_(fld(o, fn_, ft), g.leaf(ft, [], 1)))
                elif kk == 2: ss.append(expr(call("set_%s_%d" % (s.name, j), [o, g.leaf(ft, [], 1)], t)))
                elif kk == 3: ss.append(as_(fld(call("set_%s_%d" % (s.name, j), [o, g.leaf(ft, [], 1)], t), fn_, ft), g.leaf(ft, [], 1)))
                else:
                    q = g.fresh("w")
                    ss += [das(q, lam([("nv", ft)], t, body=[das("zz", var("o1", t)), as_(fld(var("zz", t), fn_, ft), var("nv", ft)), ret(var("zz", t))])), as_(fld(call(q, [g.leaf(ft, [], 1)], t), fn_, ft), g.leaf(ft, [], 1))]
                for o2 in ("o1", "o2"): ss += g.dump_var(var(o2, t), t, 3)
            bodies.append(ss)
        files.append(File(p, add_cases(p, bodies), externs=g.externs))
    for k in range(ctx.scale(4, 40)):
        files.append(general_file(r, cases=10, structs=0.7, arrays=0.2, strings=0.1, depth=3, generics=0.4))
    from core_d import rec_file
    for k in range(ctx.scale(3, 20)):
        files.append(rec_file(r))
    files += forms2.record_matrix(r, ctx.scale(6, 40))
    files += forms5.place_files(r, ctx.thorough)
    check_core(ctx, files, what="structs")


def c09(ctx):
    r = random.Random(ctx.seed * 7919 + 9)
    files = []
    for k in range(ctx.scale(7, 70)):
        p = Prog()
        g = Gen(r, structs=0.1, arrays=0.1, closures=0.1, strings=0.3, depth=2, enums=0.6, gc=0.05)
        g.prog = p
        p.add(Struct("pt", [("x", INT)]))
        g.structs = [p.decls[-1]]
        n = r.randint(1, 8)
        cases = [("K%d" % i, [("p%d" % j, g.any_type(1)) for j in range(r.choice([0, 0, 1, 2, 3, 4, 5, 5]))]) for i in range(n)]
        e1 = Enum("big", cases)
        g.enums.append(e1); p.add(e1)
        e2 = Enum("tree", [("Leaf", []), ("Node", [("l", EN("tree")), ("v", INT), ("r", EN("tree"))]), ("Tag", [("s", STRING), ("t", EN("tree"))])])
        g.enums.append(e2); p.add(e2)
        e3 = Enum("gen", [("Zero", []), ("One", [("a", PAR("A"))]), ("Two", [("a", PAR("A")), ("b", PAR("B")), ("n", INT)])], ("A", "B"))
        g.enums.append(e3); p.add(e3)
        TR = EN("tree")
        t = EN("big")
        # who: name the constructor and print the parameters; once with cases in order, once shuffled, once inside other statements
        def full(cs, val, ret_):
            arms = []
            for c, ps in cs:
                vs = ["q%d" % j for j in range(len(ps))]
                b = [out(slit(c))]
                for v, (_, pt) in zip(vs, ps): b += g.dump_var(var(v, pt), pt, 2)
                if ret_: b.append(ret(lit(int(c[1:]))))
                arms.append((c, vs, b))
            return match(val, arms)
        for w in range(3):
            cs = list(cases)
            if w: r.shuffle(cs)
            p.add(Fn("who%d" % w, [("v", t)], INT, [full(cs, var("v", t), True)] if w < 2 else [das("once", lit(0)), full(cs, call("see", [var("v", t)], t), False), ret(V("once"))]))
        p.add(Fn("see", [("v", t)], t, [out(slit("see")), ret(var("v", t))]))
        p.add(Fn("sum", [("t", TR)], INT, [match(var("t", TR), [("Node", ["l", "v", "r"], [ret(bin_("+", bin_("+", call("sum", [var("l", TR)], INT), V("v")), call("sum", [var("r", TR)], INT)))]), ("Leaf", [], [ret(lit(0))]), ("Tag", ["s", "t2"], [out(sv("s")), ret(call("sum", [var("t2", TR)], INT))])])]))
        p.add(Fn("mirror", [("t", TR)], TR, [match(var("t", TR), [("Leaf", [], [ret(var("t", TR))]), ("Tag", ["s", "t2"], [ret(call("Tag", [call("append", [sv("s"), slit("'")], S), call("mirror", [var("t2", TR)], TR)], TR))]), ("Node", ["l", "v", "r"], [ret(call("Node", [call("mirror", [var("r", TR)], TR), V("v"), call("mirror", [var("l", TR)], TR)], TR))])])]))
        p.add(Fn("walk", [("t", TR), ("d", INT)], NOTHING, [match(var("t", TR), [("Tag", ["s", "t2"], [out(sv("s")), expr(call("walk", [var("t2", TR), bin_("+", V("d"), lit(1))], NOTHING))]), ("Node", ["l", "v", "r"], [expr(call("walk", [var("l", TR), bin_("+", V("d"), lit(1))], NOTHING)), out(bin_("+", bin_("*", V("d"), lit(100)), V("v"))), expr(call("walk", [var("r", TR), bin_("+", V("d"), lit(1))], NOTHING))]), ("Leaf", [], [])])]))

        def tree(d):
            x = r.random()
            if d == 0 or x < .2: return call("Leaf", [], TR)
            if x < .8: return call("Node", [tree(d - 1), lit(r.randint(0, 9)), tree(d - 1)], TR)
            return call("Tag", [slit(r.choice(["a", "b"])), tree(d - 1)], TR)
        bodies = []
        for c in range(8):
            ss = [das("vs", arr([g.leaf(t, [], 2) for _ in range(r.randint(2, 5))]))]
            ss.append(each("v", var("vs", ARR(t)), [out(call("who0", [var("v", t)], INT)), out(call("who1", [var("v", t)], INT)), out(call("who2", [var("v", t)], INT))]))
            # nested match on two values
            if r.random() < .6:
                a, b = g.leaf(t, [], 1), g.leaf(t, [], 1)
                inner = lambda m: full(cases, b, False)
                ss.append(match(a, [(c2, ["w%d" % j for j in range(len(ps))], [out(slit("out " + c2))] + ([inner(0)] if r.random() < .5 else [])) for c2, ps in cases]))
            bodies.append(ss)
        for c in range(3):
            bodies.append([das("t", tree(3)), out(call("sum", [var("t", TR)], INT)), expr(call("walk", [call("mirror", [var("t", TR)], TR), lit(0)], NOTHING)), expr(call("walk", [var("t", TR), lit(1)], NOTHING))])
        for a, b in [(INT, STRING), (STRING, BOOL), (ARR(INT), INT), (ST("pt"), TR)]:
            gt = EN("gen", a, b)
            v = r.choice([call("Zero", [], gt, (a, b)), call("One", [g.leaf(a, [], 1)], gt, (a, b)), call("Two", [g.leaf(a, [], 1), g.leaf(b, [], 1), lit(5)], gt, (a, b))])
            bodies.append([das("v", v), match(var("v", gt), [("Two", ["x", "y", "n"], g.dump_var(var("x", a), a, 2) + g.dump_var(var("y", b), b, 2) + [out(V("n"))]), ("Zero", [], [out(slit("zero"))]), ("One", ["x"], g.dump_var(var("x", a), a, 2))])])
        files.append(File(p, add_cases(p, bodies)))
    for k in range(ctx.scale(4, 40)):
        files.append(general_file(r, cases=10, enums=0.7, structs=0.1, arrays=0.1, returns=0.3, blocks=3, depth=3))
    files += forms2.match_matrix(r, ctx.scale(1, 10))
    check_core(ctx, files, what="match")


def c10(ctx):
    r = random.Random(ctx.seed * 7919 + 10)
    files = []
    BAD = [-1, -2, -7, -8, -9, 1 << 31, 1 << 32, (1 << 32) + 1, -(1 << 31), -(1 << 32), 1 << 61, MAXI, MINI, MINI + 1, -(1 << 60), (1 << 60), (1 << 58) + 1, (1 << 59)]
    for k in range(ctx.scale(6, 60)):
        p = Prog()
        p.add(Struct("pt", [("x", INT), ("s", STRING)]))
        P = ST("pt")
        g = Gen(r, structs=0.3, arrays=0.5, closures=0.1, strings=0.3, depth=2, enums=0)
        g.prog = p
        g.structs = [p.decls[0]]
        p.add(Fn("put", [("a", ARR(INT)), ("i", INT), ("v", INT)], NOTHING, [as_(idx(var("a", ARR(INT)), V("i")), V("v"))]))
        bodies = []
        els = [INT, INT, STRING, BOOL, P, ARR(INT), ARR(STRING), FN([INT], INT), ARR(ARR(INT)), ARR(P)]
        # histories of reads & writes through aliases
        for c in range(8):
            t = r.choice(els)
            n = r.choice([1, 1, 2, 3, 4, 5, 7, 8, 9])
            mk = r.randrange(3)
            A = ARR(t)
            if mk == 0 or t[0] == "fn": e = arr([g.leaf(t, [], 1) for _ in range(n)])
            elif mk == 1: e = call("array", [lit(n), g.leaf(t, [], 1)], A)
            elif t == INT:
                e = call("intArray", [lit(n)], A)
            elif t == STRING: e = call("stringArray", [lit(n), slit("init")], A)
            else: e = arr([g.leaf(t, [], 1) for _ in range(n)])
            ss = [das("a", e)]
            if e.k == "call" and e.f == "intArray": ss.append(range_("i", lit(0), lit(n), [as_(idx(var("a", A), V("i")), lit(0))]))
            ss += [das("b", var("a", A)), das("other", arr([g.leaf(t, [], 1) for _ in range(2)])), das("i", lit(0))]
            for _ in range(r.randint(3, 8)):
                i = r.randrange(n)
                ie = r.choice([lit(i), bin_("-", lit(n), lit(n - i)), call("mod", [lit(i + n * r.randint(0, 3)), fld(var("a", A), "length", INT)], INT)])
                k2 = r.randrange(4)
                if k2 < 2: ss.append(as_(idx(var(r.choice("ab"), A), ie), g.leaf(t, [], 1)))
                elif k2 == 2: ss.append(as_(idx(var("a", A), ie), idx(var("b", A), lit(r.randrange(n)))))
                else: ss += g.dump_var(idx(var("b", A), ie), t, 1)
            ss += g.dump_var(var("a", A), A, 3) + g.dump_var(var("other", A), A, 2)
            bodies.append(ss)
        # bad indexes: a single wrong access ends the program after its earlier output
        for c in range(16):
            n = r.choice([0, 1, 2, 5, 8])
            bad = r.choice(BAD + [n, n + 1, n + 7, n + 8])
            t = r.choice([INT, STRING, P, ARR(INT)])
            A = ARR(t)
            ie = r.choice([I(bad), bin_("+", I(bad - 1 if bad > MINI else MINI), lit(1 if bad > MINI else 0)), V("ix")])
            ss = [out(slit("before")), das("ix", I(bad)), das("a", arr([g.leaf(t, [], 1) for _ in range(n)]) if n else call("array", [lit(0), g.leaf(t, [], 1)], A))]
            k2 = r.randrange(6)
            acc = idx(var("a", A), ie)
            if k2 == 0: ss += [das("got", acc), out(slit("after"))]
            elif k2 == 1: ss += [as_(acc, g.leaf(t, [], 1)), out(slit("after"))]
            elif k2 == 2: ss += [if_([(true(), [range_("z", lit(0), lit(3), [out(V("z")), das("got", acc), out(slit("after"))])])])]
            elif k2 == 3: ss += [das("f", lam([("ix2", INT)], t, expr=idx(var("a", A), V("ix2")))), das("got", call("f", [V("ix")], t)), out(slit("after"))]
            elif k2 == 4: ss += [das("m", arr([var("a", A)])), das("got", idx(idx(var("m", ARR(A)), lit(0)), ie)), out(slit("after"))]
            else: ss += [expr(call("put", [arr([lit(1), lit(2)]), I(bad) if not 0 <= bad < 2 else lit(2), lit(9)], NOTHING)), out(slit("after"))]
            bodies.append(ss)
        # element writes do not leak into neighbours: several arrays side by side
        n = r.randint(2, 6)
        bodies.append([das("m", call("array", [lit(n), arr([lit(0)])], ARR(ARR(INT)))), range_("i", lit(0), lit(n), [as_(idx(var("m", ARR(ARR(INT))), V("i")), call("array", [bin_("+", V("i"), lit(1)), V("i")], ARR(INT)))]),
                       range_("i", lit(n), lit(0), [das("row", idx(var("m", ARR(ARR(INT))), V("i"))), range_("j", lit(0), fld(var("row", ARR(INT)), "length", INT), [as_(idx(idx(var("m", ARR(ARR(INT))), V("i")), V("j")), bin_("+", bin_("*", V("i"), lit(10)), V("j")))])]),
                       each("row", var("m", ARR(ARR(INT))), [each("x", var("row", ARR(INT)), [out(V("x"))])])])
        big = r.choice([100, 257, 1000])
        bodies.append([das("a", call("array", [lit(big), lit(1)], ARR(INT))), as_(idx(var("a", ARR(INT)), lit(big - 1)), lit(5)), as_(idx(var("a", ARR(INT)), lit(0)), lit(6)), das("s", lit(0)), each("x", var("a", ARR(INT)), [as_(V("s"), bin_("+", V("s"), V("x")))]), out(V("s")), out(fld(var("a", ARR(INT)), "length", INT)), out(idx(var("a", ARR(INT)), lit(big)))])
        files.append(File(p, add_cases(p, bodies)))
    # lengths no array can have: the program stops before anything is made of them
    LEN = [-1, -2, -3, -4, -9, -100, MINI, MINI + 1, -(1 << 60), -(1 << 60) + 2, -(1 << 32), 1 << 59, (1 << 59) + 5, 1 << 60, (1 << 60) + 1, (1 << 60) + 7, 3 << 60, 1 << 61, (1 << 61) + 3, MAXI, 1 << 58, 1 << 50, 1 << 44]
    for k in range(ctx.scale(1, 4)):
        p = Prog(); bodies = []
        for n in LEN:
            mk = r.choice([(INT, call("intArray", [V("n")], ARR(INT))), (INT, call("array", [V("n"), lit(3)], ARR(INT))), (STRING, call("stringArray", [V("n"), slit("d")], ARR(STRING))), (STRING, call("array", [V("n"), slit("d")], ARR(STRING)))])
            A = ARR(mk[0]); a = var("a", A)
            val = lit(5) if mk[0] == INT else slit("v")
            use = r.choice([[as_(idx(a, lit(1)), val), out(idx(a, lit(1)))], [as_(idx(a, lit(1 << 20)), val)], [out(fld(a, "length", INT))], [each("x", a, [out(slit("element"))])]])
            bodies.append([das("keep", arr([lit(1), lit(2)])), das("n", I(n)), out(slit("before")), das("a", mk[1])] + use + [out(slit("after")), out(idx(var("keep", ARR(INT)), lit(1)))])
        files.append(File(p, add_cases(p, bodies)))
    for k in range(ctx.scale(3, 30)):
        files.append(general_file(r, cases=10, arrays=0.7, structs=0.1, oob=0.08, depth=3))
    files += access_matrix(r, [0, 1, 2, 3], [4, 5, 8, -1, -2, -4, -5, -8] + r.sample(BAD, 6), ctx.thorough)
    files += forms4.short_arrays(r, ctx.thorough)
    check_core(ctx, files, what="arrays")
