"""Systematic forms, fourth part: short arrays with constant indexes (C10), the last act of main (C25), long chains of
objects (C16), generic signatures over every shape of type (C07, C19)."""
import itertools
from clara import *
from gen import *
from forms import *
import forms3

S = STRING


# ---------------------------------------------------------------------------------------------- constant indexes (C10)
def short_arrays(r, full=False):
    """arrays of every element type and of length 0..3, made in every way; constant (and equal variable) indexes around both ends"""
    from core import File
    P = ST("pt")
    EL = {"int": (INT, lambda: lit(7)), "str": (S, lambda: slit("q")), "bool": (BOOL, lambda: true()), "pt": (P, lambda: call("Pt", [lit(4)], P)), "ints": (ARR(INT), lambda: arr([lit(5), lit(6)])),
          "opt": (EN("op"), lambda: call("Yes", [lit(8)], EN("op"))), "fn": (FN([], INT), lambda: lam([], INT, expr=lit(9))), "bytes": (BYTES, lambda: call("Bytes", [lit(1)], BYTES))}
    ACC = ["read", "write", "readstmt", "nested", "nestedw", "field", "fieldw", "captured", "cond", "arg", "returned", "param"]
    IX = ["lit", "var", "sum", "len"]
    AT = [lambda n: n, lambda n: 0, lambda n: n + 1, lambda n: -1, lambda n: n - 1, lambda n: 1]
    dims = (len(EL), 4, len(ACC), len(IX), len(AT))
    rows = pairwise(r, *dims)
    # lengths and constant positions with every way to access
    rows += [(r.randrange(len(EL)), n, a, x, at) for n in (0, 1) for a in range(len(ACC)) for x in (0, r.randrange(1, 4)) for at in ((0, 2) if n else (0, 3))]
    if full: rows += [tuple(r.randrange(d) for d in dims) for _ in range(3 * len(rows))]
    r.shuffle(rows)
    files, cur = [], None
    for row in rows:
        if cur is None or len(cur[1]) >= 70:
            p = Prog()
            p.add(Struct("pt", [("x", INT)])); p.add(Enum("op", [("No", []), ("Yes", [("n", INT)])])); p.add(Struct("keep", [("pad", INT), ("a", ARR(PAR("T")))], ("T",)))
            p.add(Fn("at", [("a", ARR(PAR("T"))), ("i", INT)], PAR("T"), [ret(idx(var("a", ARR(PAR("T"))), V("i")))], tparams=("T",)))
            cur = (p, [])
            files.append(cur)
        p, es = cur
        t, mk = list(EL.values())[row[0]]
        n, acc, ix, k = row[1], ACC[row[2]], IX[row[3]], AT[row[4]](row[1])
        A = ARR(t)
        a = var("a", A)
        name = "case%d" % len(es)
        if n and (t[0] == "fn" or r.random() < .5): e = arr([mk() for _ in range(n)])
        elif t == INT and n == 0 and r.random() < .4: e = call("intArray", [lit(n)], A)
        elif t == S and r.random() < .4: e = call("stringArray", [lit(n), slit("w")], A)
        else: e = call("array", [lit(n), mk()], A)
        ss = [out(slit("b")), das("a", e), das("other", arr([mk(), mk()])), das("ix", lit(k)), out(fld(a, "length", INT))]
        i = {"lit": lambda: lit(k), "var": lambda: V("ix"), "sum": lambda: bin_("+", lit(k - 1), lit(1)), "len": lambda: bin_("+", fld(a, "length", INT), lit(k - n))}[ix]

        def show(e):
            if t in (INT, S): return [out(e)]
            if t == BOOL: return [out(tern(e, lit(1), lit(0)))]
            if t == P: return [out(fld(e, "x", INT))]
            if t == BYTES: return [out(call("length", [e], INT))]
            if t[0] == "fn": return [out(dyn(e, [], INT))] if r.random() < .5 else [if_([(true(), [das("ff", e), out(call("ff", [], INT))])])]
            if t[0] == "arr": return [out(idx(e, lit(0)))]
            return [match(e, [("Yes", ["yn"], [out(V("yn"))]), ("No", [], [out(slit("no"))])])]
        K, M = ST("keep", t), ARR(A)
        if acc == "read": ss += show(idx(a, i()))
        elif acc == "write": ss += [as_(idx(a, i()), mk())] + show(idx(a, i()))
        elif acc == "readstmt": ss += [das("got", idx(a, i()))] + show(var("got", t))
        elif acc == "nested": ss += [das("m", arr([a, a]))] + show(idx(idx(var("m", M), lit(1)), i()))
        elif acc == "nestedw": ss += [das("m", arr([a, a])), as_(idx(idx(var("m", M), lit(0)), i()), mk())] + show(idx(a, i()))
        elif acc == "field": ss += [das("h", call("Keep", [lit(1), a], K))] + show(idx(fld(var("h", K), "a", A), i()))
        elif acc == "fieldw": ss += [das("h", call("Keep", [lit(1), a], K)), as_(idx(fld(var("h", K), "a", A), i()), mk())] + show(idx(a, i()))
        elif acc == "captured": ss += [das("f", lam([], t, body=[ret(idx(a, i()))])), das("got", call("f", [], t))] + show(var("got", t))
        elif acc == "cond": ss += [das("got", tern(true(), idx(a, i()), idx(var("other", A), lit(0))))] + show(var("got", t))
        elif acc == "arg": ss += [das("g2", call("id" + name, [idx(a, i())], t))] + show(var("g2", t)); p.add(Fn("id" + name, [("x", t)], t, [out(slit("in")), ret(var("x", t))]))
        elif acc == "returned": ss += [das("g3", call("rt" + name, [a, V("ix")], t))] + show(var("g3", t)); p.add(Fn("rt" + name, [("a", A), ("ix", INT)], t, expr=idx(a, i())))
        else: ss += [das("g4", call("at", [a, i()], t))] + show(var("g4", t))
        ss += [out(slit("after"))] + show(idx(var("other", A), lit(1)))
        p.add(Fn(name, [], NOTHING, ss))
        es.append(name)
    return [File(p, es) for p, es in files]


# ---------------------------------------------------------------------------------------------- how main ends (C25)
def main_files(r, full=False):
    """programs whose main ends in every kind of statement, with every kind of value left over"""
    from core import File
    decls = lambda: [Struct("pt", [("x", INT), ("s", S)]), Enum("op", [("No", []), ("Yes", [("n", INT)])]), Fn("num", [("n", INT)], INT, [out(slit("num")), ret(V("n"))]), Fn("say", [("s", S)], S, expr=var("s", S)), Fn("yes", [("b", BOOL)], BOOL, expr=var("b", BOOL)),
                     Fn("mkp", [("n", INT)], ST("pt"), expr=call("Pt", [V("n"), slit("z")], ST("pt"))), Fn("nothing_", [("n", INT)], NOTHING, [if_([(bin_(">", V("n"), lit(0)), [out(V("n"))])])]), Fn("mka", [("n", INT)], ARR(INT), expr=arr([V("n")])),
                     Fn("mko", [("n", INT)], EN("op"), [if_([(bin_(">", V("n"), lit(0)), [ret(call("Yes", [V("n")], EN("op")))])]), ret(call("No", [], EN("op")))]), Fn("mkf", [("n", INT)], FN([], INT), expr=lam([], INT, expr=V("n"))),
                     Fn("quit", [("n", INT)], NOTHING, [if_([(bin_("<", V("n"), lit(-100)), [out(slit("q")), ret(None)])])])]
    vals = [0, 1, -1, 2, 127, 128, 255, 256, -128, -255, -256, 65535, 1 << 31, -(1 << 31), 1 << 32, MAXI, -MAXI]
    ends = []
    for v in vals: ends.append([expr(call("num", [lit(v)], INT))])
    for v in vals[:9]: ends += [[das("x", lit(v))], [das("x", lit(1)), as_(V("x"), lit(v))], [das("x", call("num", [lit(v)], INT))]]
    for b in (True, False): ends += [[expr(call("yes", [blit(b)], BOOL))], [das("b", blit(b))], [das("b", un("not", blit(b)))], [das("b", bin_("<", call("num", [lit(1)], INT), lit(2 if b else 0)))], [if_([(blit(b), [expr(call("num", [lit(-5)], INT))])], [expr(call("num", [lit(-6)], INT))])], [while_(blit(False), [])]]
    ends += [[expr(call("say", [slit("x")], S))], [das("s", call("append", [slit("a"), slit("b")], S))], [expr(call("append", [slit("a"), slit("b")], S))], [expr(call("mkp", [lit(-3)], ST("pt")))], [expr(call("Pt", [lit(-1), slit("")], ST("pt")))], [expr(call("nothing_", [lit(-4)], NOTHING))], [expr(call("nothing_", [lit(4)], NOTHING))],
             [expr(call("mka", [lit(-9)], ARR(INT)))], [expr(call("mko", [lit(0)], EN("op")))], [expr(call("mko", [lit(5)], EN("op")))], [expr(call("mkf", [lit(-2)], FN([], INT)))], [expr(dyn(call("mkf", [lit(-2)], FN([], INT)), [], INT))], [expr(call("No", [], EN("op")))], [expr(call("quit", [lit(-200)], NOTHING))], [expr(call("quit", [lit(3)], NOTHING))],
             [das("a", call("mka", [lit(1)], ARR(INT))), as_(idx(var("a", ARR(INT)), lit(0)), lit(-7))], [das("p", call("mkp", [lit(1)], ST("pt"))), as_(fld(var("p", ST("pt")), "x", INT), lit(-7))], [das("i", lit(0)), while_(bin_("<", V("i"), lit(3)), [as_(V("i"), bin_("+", V("i"), lit(1)))])],
             [range_("i", lit(0), lit(-3), [expr(call("num", [V("i")], INT))])], [range_("i", lit(0), lit(2), [expr(call("num", [bin_("-", lit(0), V("i"))], INT))])], [each("e", arr([lit(-1), lit(-2)]), [expr(call("num", [V("e")], INT))])], [each("e", call("array", [lit(0), lit(-2)], ARR(INT)), [expr(call("num", [V("e")], INT))])],
             [match(call("mko", [lit(1)], EN("op")), [("Yes", ["n"], [expr(call("num", [bin_("-", lit(0), V("n"))], INT))]), ("No", [], [])])], [match(call("mko", [lit(0)], EN("op")), [("Yes", ["n"], [expr(call("num", [bin_("-", lit(0), V("n"))], INT))]), ("No", [], [])])],
             [das("f", lam([("q", INT)], INT, expr=un("-", V("q")))), expr(call("f", [lit(8)], INT))], [das("f", lam([], NOTHING, body=[out(slit("in"))])), expr(call("f", [], NOTHING))], [out(slit("last"))], [expr(call("print", [slit("last")], NOTHING))], [expr(call("print", [slit("")], NOTHING))], [], [ret(None)], [expr(call("num", [lit(-1)], INT)), ret(None)],
             [if_([(true(), [expr(call("num", [lit(-1)], INT)), ret(None)])]), out(slit("not here"))], [range_("i", lit(0), lit(9), [if_([(bin_("==", V("i"), lit(2)), [expr(call("num", [lit(-2)], INT)), ret(None)])])])], [expr(call("gc", [], NOTHING))], [das("z", call("toString", [lit(-5)], S))], [das("bs", call("Bytes", [lit(3)], BYTES))],
             [expr(call("assert", [true(), slit("never")], NOTHING))], [expr(call("num", [bin_("-", call("num", [lit(3)], INT), lit(9))], INT))], [das("h", call("mod", [lit(-7), lit(3)], INT))], [expr(call("mod", [lit(-7), lit(3)], INT))]]
    fs = []
    for e in ends:
        p = Prog()
        for d in decls(): p.add(d)
        body = ([out(slit("start"))] if r.random() < .7 else []) + ([das("k", lit(r.choice(vals)))] if r.random() < .4 else []) + e
        p.add(Fn("main", [], NOTHING, body))
        if r.random() < .4: r.shuffle(p.decls)
        fs.append(File(p, ["main"]))
    return fs


# ---------------------------------------------------------------------------------------------- long chains (C16)
def deep_files(r, full=False):
    """chains of objects of every kind, longer than any fixed depth: cases, structs, arrays, environments, and mixtures"""
    from core import File
    from core_a import add_cases
    files = []
    sizes = [r.choice([300, 511, 700]), r.choice([1023, 1100, 1500])] + ([3000, 5000] if full else [])
    for n in sizes:
        p = Prog()
        C = EN("chain")
        N_ = ST("node")
        O = EN("more")
        X = EN("mix")
        F = FN([], S)
        p.add(Enum("chain", [("End", []), ("Link", [("s", S), ("rest", C)])]))
        p.add(Enum("more", [("Some_", [("n", N_)]), ("None_", [])]))
        p.add(Struct("node", [("s", S), ("next", O)]))
        p.add(Enum("mix", [("Stop", []), ("Arr", [("a", ARR(X))]), ("Rec", [("r", ST("rcd"))]), ("Fun", [("f", FN([], X))])]))
        p.add(Struct("rcd", [("k", INT), ("m", X)]))
        p.add(Fn("lab", [("i", INT)], S, expr=call("append", [slit("n"), call("toString", [V("i")], S)], S)))
        p.add(Fn("junk", [("n", INT)], NOTHING, [range_("i", lit(0), V("n"), [das("t", call("append", [slit("junkjunk"), slit("x")], S))])]))
        clear = [expr(call("gc", [], NOTHING)), expr(call("junk", [lit(40)], NOTHING)), expr(call("gc", [], NOTHING))]
        last = lit(n - 3)
        # enum cases
        p.add(Fn("mkc", [("n", INT)], C, [das("c", call("End", [], C)), range_("i", lit(0), V("n"), [as_(var("c", C), call("Link", [tern(bin_("<", V("i"), lit(3)), call("lab", [V("i")], S), slit("-")), var("c", C)], C))]), ret(var("c", C))]))
        b1 = [das("c", call("mkc", [lit(n)], C))] + clear + [das("k", lit(0)), das("go", true()), while_(var("go", BOOL), [match(var("c", C), [("Link", ["s", "rest"], [if_([(bin_(">=", V("k"), last), [out(var("s", S))])]), as_(V("k"), bin_("+", V("k"), lit(1))), as_(var("c", C), var("rest", C))]), ("End", [], [as_(var("go", BOOL), false())])])]), out(V("k"))]
        # structs linked through an option
        p.add(Fn("mkn", [("n", INT)], N_, [das("h", call("Node", [slit("zero"), call("None_", [], O)], N_)), range_("i", lit(0), V("n"), [as_(var("h", N_), call("Node", [tern(bin_("<", V("i"), lit(2)), call("lab", [V("i")], S), slit("-")), call("Some_", [var("h", N_)], O)], N_))]), ret(var("h", N_))]))
        m2 = n // 2
        b2 = [das("h", call("mkn", [lit(m2)], N_))] + clear + [das("k", lit(0)), das("go", true()), while_(var("go", BOOL), [if_([(bin_(">=", V("k"), lit(m2 - 2)), [out(fld(var("h", N_), "s", S))])]), as_(V("k"), bin_("+", V("k"), lit(1))), match(fld(var("h", N_), "next", O), [("Some_", ["nx"], [as_(var("h", N_), var("nx", N_))]), ("None_", [], [as_(var("go", BOOL), false())])])]), out(V("k"))]
        # closures that hold closures
        p.add(Fn("wrapf", [("f", F)], F, expr=lam([], S, expr=call("f", [], S))))
        m3 = min(n, 400)
        b3 = [das("s", call("lab", [lit(5)], S)), das("f", lam([], S, expr=var("s", S))), range_("i", lit(0), lit(m3), [as_(var("f", F), call("wrapf", [var("f", F)], F))]), as_(var("s", S), slit("other"))] + clear + [out(call("f", [], S))]
        # arrays, records and functions in turn
        p.add(Fn("keepf", [("x", X)], FN([], X), expr=lam([], X, expr=var("x", X))))
        b4 = mixed(n // 3) + clear + [das("k", lit(0)), das("go", true()), while_(var("go", BOOL), [as_(V("k"), bin_("+", V("k"), lit(1))), match(var("x", X), [("Stop", [], [as_(var("go", BOOL), false())]), ("Arr", ["a"], [as_(var("x", X), idx(var("a", ARR(X)), lit(1)))]), ("Rec", ["r"], [if_([(bin_("<", fld(var("r", ST("rcd")), "k", INT), lit(2)), [out(fld(var("r", ST("rcd")), "k", INT))])]), as_(var("x", X), fld(var("r", ST("rcd")), "m", X))]), ("Fun", ["f"], [as_(var("x", X), call("f", [], X))])])]), out(V("k"))]
        files.append(File(p, add_cases(p, [b1, b2, b3, b4])))
    return files


def mixed(m):
    X = EN("mix")
    x = lambda: var("x", X)
    return [das("x", call("Stop", [], X)), range_("i", lit(0), lit(m), [as_(x(), call("Arr", [arr([call("Stop", [], X), x()])], X)), das("r", call("Rcd", [V("i"), x()], ST("rcd"))), as_(x(), call("Rec", [var("r", ST("rcd"))], X)), as_(x(), call("Fun", [call("keepf", [x()], FN([], X))], X))])]


# ---------------------------------------------------------------------------------------------- generic signatures (C07, C19)
def generic_files(r, n):
    """generic functions, structs, enums and inner functions whose signatures mention every shape of type next to a type parameter"""
    from core import File
    from core_a import add_cases
    T, U = PAR("T"), PAR("U")
    files = []
    for k in range(n):
        L = r.names = forms3.OWN if k % 3 == 0 else forms3.LIB[k % 3 - 1]
        ts = forms3.distinct(r, L)
        base = [t for t in ts if t in (INT, STRING, BOOL, BYTES)]
        ts = base + [t for t in ts if t not in base][:26]
        p = Prog()
        decls = forms3.shape_decls(L)
        bodies = [[]]
        val = lambda t: forms3.shape_value(r, t, 0, L)

        def show(e, t):
            nm = "s%d" % r.randrange(1 << 30)
            if t in (INT, STRING): return [out(e)]
            if t == BOOL: return [out(tern(e, lit(1), lit(0)))]
            if t == BYTES: return [out(call("length", [e], INT))]
            if t[0] == "arr": return [das(nm, e), out(fld(var(nm, t), "length", INT))]
            if t == FN([], INT) or t == FN([], STRING): return [das(nm, e), out(call(nm, [], t[2]))]
            if t == ST("pt"): return [out(fld(e, "x", INT))]
            if t[0] == "en" and t[1] == "hue": return [match(e, [("Pale", ["pk"], [out(V("pk"))]), ("Dark", [], [out(slit("dark"))])])]
            return [das(nm, e), out(slit("some"))]
        for i, t in enumerate(ts):
            if len(bodies[-1]) > 50: bodies.append([])
            b = bodies[-1]
            at = r.choice([INT, STRING, BOOL, ST("pt"), ARR(INT), FN([], INT)])     # the type argument
            ut = r.choice([INT, STRING, BOOL])
            forms = ["pass", "other", "make", "apply", "struct", "enum", "two", "inner", "hof", "chain"]
            for f in r.sample(forms, 4 if t not in base else 7):
                g = "%s%d" % (f, i)
                if f == "pass": decls.append(Fn(g, [("x", T), ("y", t)], t, expr=var("y", t), tparams=("T",))); b += show(call(g, [val(at), val(t)], t), t)
                elif f == "other": decls.append(Fn(g, [("y", t), ("x", ARR(T))], T, [ret(idx(var("x", ARR(T)), lit(0)))], tparams=("T",))); b += show(call(g, [val(t), arr([val(at)])], at), at)
                elif f == "make": decls.append(Fn(g, [("x", T)], t, [out(lit(i)), ret(val(t))], tparams=("T",))); b += show(call(g, [val(at)], t), t)
                elif f == "apply" : decls.append(Fn(g, [("f", FN([t], T)), ("y", t)], T, expr=call("f", [var("y", t)], T), tparams=("T",))); b += show(call(g, [lam([("q", t)], at, expr=val(at)), val(t)], at), at)
                elif f == "struct":
                    decls.append(Struct("gs%d" % i, [("a", t), ("b", T), ("c", ARR(t))], ("T",)))
                    st = ST("gs%d" % i, at)
                    b += [das("g%d" % i, call("Gs%d" % i, [val(t), val(at), arr([val(t)])], st))] + show(fld(var("g%d" % i, st), "a", t), t) + show(fld(var("g%d" % i, st), "b", at), at) + show(idx(fld(var("g%d" % i, st), "c", ARR(t)), lit(0)), t)
                elif f == "enum":
                    decls.append(Enum("ge%d" % i, [("Ga%d" % i, [("a", t), ("b", T)]), ("Gb%d" % i, [("c", ARR(T))])], ("T",)))
                    et = EN("ge%d" % i, at)
                    e = call("Ga%d" % i, [val(t), val(at)], et) if r.random() < .6 else call("Gb%d" % i, [arr([val(at)])], et)
                    b += [match(e, [("Ga%d" % i, ["ma", "mb"], show(var("ma", t), t) + show(var("mb", at), at)), ("Gb%d" % i, ["mc"], show(idx(var("mc", ARR(at)), lit(0)), at))])]
                elif f == "two": decls.append(Fn(g, [("x", T), ("z", t), ("y", U)], U, [das("w", var("z", t)), out(slit(g)), ret(var("y", U))], tparams=("T", "U"))); b += show(call(g, [val(at), val(t), val(ut)], ut), ut)
                elif f == "inner": decls.append(Fn(g, [("x", T), ("z", t)], t, [das("l", lam([("y", T)], t, body=[ret(var("z", t))])), ret(call("l", [var("x", T)], t))], tparams=("T",))); b += show(call(g, [val(at), val(t)], t), t)
                elif f == "hof": decls.append(Fn(g, [("x", T), ("z", t)], FN([T], t), expr=lam([("y", T)], t, expr=var("z", t)), tparams=("T",))); b += show(dyn(call(g, [val(at), val(t)], FN([at], t)), [val(at)], t), t)
                else:
                    decls.append(Fn(g, [("x", T), ("z", t)], ARR(t), [ret(arr([var("z", t), var("z", t)]))], tparams=("T",)))
                    decls.append(Fn(g + "b", [("x", U), ("z", t)], t, [ret(idx(call(g, [var("x", U), var("z", t)], ARR(t)), lit(1)))], tparams=("U",)))
                    b += show(call(g + "b", [val(at), val(t)], t), t)
        r.shuffle(decls)
        for d in decls: p.add(d)
        files.append(File(p, add_cases(p, bodies)))
        if L is not forms3.OWN: files[-1].hidden = forms3.generic_types(L)
    return files
