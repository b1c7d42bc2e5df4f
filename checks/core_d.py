"""C16, C19, C29: garbage collection is invisible, valid programs are accepted, layout does not matter."""
import copy, random
from clara import *
from core import *
from gen import *
from forms import *
import forms3, forms4
from core_a import I, V, U, add_cases
from core_b import S, sv
from core_c import either, show_string, dumpS, bv

GC = lambda: expr(call("gc", [], NOTHING))


def gc_file(r):
    """objects held in every kind of place while others are allocated"""
    p = Prog()
    P = ST("pt")
    N = ST("node")
    F1 = FN([INT], INT)
    FS = FN([], S)
    p.add(Struct("pt", [("x", INT), ("s", S)]))
    p.add(Struct("node", [("name", S), ("next", EN("chain")), ("data", EN("bag"))]))
    CH = EN("chain")
    p.add(Enum("chain", [("End", []), ("Link", [("n", ST("node")), ("rest", EN("chain"))])]))
    p.add(Struct("six", [("f%d" % j, S) for j in range(6)]))
    p.add(Enum("bag", [("Empt", []), ("Strs", [("a", S), ("b", S), ("c", S), ("d", S), ("e", S)]), ("Sub", [("p", P), ("b", EN("bag")), ("xs", ARR(S))]), ("Fun", [("f", FS)])]))
    p.add(Struct("box", [("v", PAR("T")), ("more", ARR(PAR("T")))], ("T",)))
    B = EN("bag")
    p.add(Fn("junk", [("n", INT)], INT, [das("t", slit("")), range_("i", lit(0), V("n"), [as_(sv("t"), call("append", [sv("t"), call("toString", [V("i")], S)], S)), das("q", call("Pt", [V("i"), sv("t")], P))]), ret(fld(sv("t"), "length", INT))]))
    p.add(Fn("mk", [("s", S)], S, [expr(call("junk", [lit(2)], INT)), ret(call("append", [sv("s"), slit("+")], S))]))
    p.add(Fn("mkp", [("n", INT)], P, [das("r", call("Pt", [V("n"), call("mk", [slit("p")], S)], P)), expr(call("junk", [lit(1)], INT)), ret(var("r", P))]))
    p.add(Fn("mka", [("n", INT)], ARR(S), [das("r", call("array", [V("n"), slit("-")], ARR(S))), range_("i", lit(0), V("n"), [as_(idx(var("r", ARR(S)), V("i")), call("mk", [call("toString", [V("i")], S)], S))]), ret(var("r", ARR(S)))]))
    p.add(Fn("mkf", [("s", S)], FS, [das("u", call("mk", [sv("s")], S)), ret(lam([], S, body=[expr(call("junk", [lit(1)], INT)), ret(call("append", [sv("u"), sv("s")], S))]))]))
    T = PAR("T")
    p.add(Fn("keep", [("x", T), ("y", T)], T, [expr(call("junk", [lit(1)], INT)), ret(var("y", T))], tparams=("T",)))
    args6 = ["a", "b", "c", "d", "e", "f"]
    p.add(Fn("join6", [(a, S) for a in args6], S, [expr(call("junk", [lit(2)], INT)), das("z", sv("a"))] + [as_(sv("z"), call("append", [sv("z"), sv(a)], S)) for a in args6[1:]] + [ret(sv("z"))]))
    p.add(Fn("showb", [("b", B)], NOTHING, [match(var("b", B), [("Empt", [], [out(slit("empty"))]), ("Strs", ["a", "b2", "c", "d", "e"], [expr(call("junk", [lit(1)], INT))] + [out(sv(x)) for x in ["a", "b2", "c", "d", "e"]]),
        ("Sub", ["p", "bb", "xs"], [GC(), out(fld(var("p", P), "s", S)), expr(call("showb", [var("bb", B)], NOTHING)), each("x", var("xs", ARR(S)), [out(sv("x"))])]), ("Fun", ["f"], [out(call("f", [], S))])])]))
    p.add(Fn("shown", [("n", N), ("d", INT)], NOTHING, [out(fld(var("n", N), "name", S)), expr(call("showb", [fld(var("n", N), "data", B)], NOTHING)), if_([(bin_(">", V("d"), lit(0)), [expr(call("showc", [fld(var("n", N), "next", CH), bin_("-", V("d"), lit(1))], NOTHING))])])]))
    p.add(Fn("showc", [("c", CH), ("d", INT)], NOTHING, [match(var("c", CH), [("Link", ["n", "rest"], [expr(call("shown", [var("n", N), V("d")], NOTHING)), expr(call("showc", [var("rest", CH), V("d")], NOTHING))]), ("End", [], [])])]))
    n = [0]

    def st(d):
        k = r.randrange(9)
        if d <= 0 or k == 0: return call("mk", [slit(r.choice(["a", "bc", ""]))], S)
        if k == 1: return call("append", [st(d - 1), st(d - 1)], S)
        if k == 2: return fld(call("Pt", [call("junk", [lit(r.randint(0, 3))], INT), st(d - 1)], P), "s", S)
        if k == 3: return idx(arr([st(d - 1) for _ in range(r.randint(2, 4))]), lit(r.randint(0, 1)))
        if k == 4: return call("join6", [st(d - 2) for _ in range(6)], S)
        if k == 5: return tern(bin_(">", call("junk", [lit(2)], INT), lit(r.randint(0, 3))), st(d - 1), st(d - 1))
        if k == 6: return dyn(call("mkf", [st(d - 1)], FS), [], S)
        if k == 7: return call("keep", [st(d - 1), st(d - 1)], S)
        return fld(call("Six", [st(d - 2) for _ in range(6)], ST("six")), "f%d" % r.randrange(6), S)

    def bag(d):
        k = r.randrange(4)
        if d <= 0 or k == 0: return call("Empt", [], B)
        if k == 1: return call("Strs", [st(d - 1) for _ in range(5)], B)
        if k == 2: return call("Sub", [call("Pt", [lit(1), st(d - 1)], P), bag(d - 1), call("mka", [lit(r.randint(0, 3))], ARR(S))], B)
        return call("Fun", [call("mkf", [st(d - 1)], FS)], B)

    def noise(): return r.choice([GC, lambda: expr(call("junk", [lit(r.randint(1, 4))], INT))])()
    bodies = []
    for c in range(9):
        ss = []
        env = []
        for _ in range(r.randint(4, 8)):
            n[0] += 1
            v = "v%d" % n[0]
            k = r.randrange(12)
            if k <= 1: ss.append(das(v, st(3))); env.append((v, S))
            elif k == 2: ss.append(das(v, bag(3))); env.append((v, B))
            elif k == 3: ss.append(das(v, call("Node", [st(1), call("Link", [call("Node", [st(1), call("End", [], CH), bag(2)], N), call("End", [], CH)], CH), bag(1)], N))); env.append((v, N))
            elif k == 4: ss.append(das(v, call("mkf", [st(2)], FS))); env.append((v, FS))
            elif k == 5: ss.append(das(v, call("mka", [lit(r.randint(1, 4))], ARR(S)))); env.append((v, ARR(S)))
            elif k == 6: ss.append(each("el", arr([st(2), st(1)]), [noise(), out(sv("el")), noise()]))
            elif k == 7: ss.append(match(bag(2), [("Sub", ["p", "b", "xs"], [noise(), out(fld(var("p", P), "s", S)), expr(call("showb", [var("b", B)], NOTHING))]), ("Empt", [], [noise()]), ("Fun", ["f"], [noise(), out(call("f", [], S)), noise(), out(call("f", [], S))]), ("Strs", list("abcde"), [noise(), out(sv("e")), out(sv("a"))])]))
            elif k == 8:
                w = "w%d" % n[0]
                ss += [das(w, lit(0)), while_(bin_("<", V(w), lit(2)), [das("t1", st(2)), noise(), das("t2", call("append", [sv("t1"), st(1)], S)), out(sv("t2")), as_(V(w), bin_("+", V(w), lit(1)))])]
            elif k == 9: ss.append(if_([(blit(r.random() < .5), [das("u1", st(2)), noise(), out(sv("u1"))])], [das("u2", call("mkp", [lit(3)], P)), das("u3", st(1)), noise(), out(fld(var("u2", P), "s", S)), out(sv("u3"))]))
            elif k == 10:
                t = ST("box", S)
                ss += [das(v, call("Box", [st(2), arr([st(1), st(1)])], t)), noise(), out(fld(var(v, t), "v", S)), out(idx(fld(var(v, t), "more", ARR(S)), lit(1)))]
            else: ss.append(out(st(4)))
            # overwrite something older
            if env and r.random() < .3:
                x, t = r.choice(env)
                if t == S: ss.append(as_(sv(x), call("append", [sv(x), st(2)], S)))
                elif t == ARR(S): ss.append(as_(idx(var(x, t), lit(0)), st(2)))
                elif t == N:
                    ss += [as_(fld(var(x, N), "next", CH), call("Link", [var(x, N), fld(var(x, N), "next", CH)], CH)), as_(fld(var(x, N), "data", B), bag(2))]
        ss.append(noise())
        for x, t in env:
            if t == S: ss.append(out(sv(x)))
            elif t == B: ss.append(expr(call("showb", [var(x, B)], NOTHING)))
            elif t == N: ss.append(expr(call("shown", [var(x, N), lit(2)], NOTHING)))
            elif t == FS: ss += [out(call(x, [], S)), out(call(x, [], S))]
            else: ss.append(each("q", var(x, t), [out(sv("q"))]))
        bodies.append(ss)
    # recursion: every activation keeps an object alive
    p.add(Fn("deep", [("n", INT), ("s", S)], S, [das("mine", call("append", [sv("s"), call("toString", [V("n")], S)], S)), if_([(bin_("==", V("n"), lit(0)), [GC(), ret(sv("mine"))])]), das("got", call("deep", [bin_("-", V("n"), lit(1)), slit(".")], S)), ret(call("append", [sv("mine"), sv("got")], S))]))
    bodies.append([out(call("deep", [lit(r.randint(5, 15)), slit("x")], S))])
    return p, bodies


def c16(ctx):
    r = random.Random(ctx.seed * 7919 + 16)
    files = []
    for k in range(ctx.scale(10, 90)):
        p, bodies = gc_file(r)
        files.append(File(p, add_cases(p, bodies)))
    for k in range(ctx.scale(5, 60)):
        files.append(general_file(r, cases=10, gc=0.15, strings=0.4, structs=0.3, enums=0.3, arrays=0.3, closures=0.3, generics=0.2, bytes=0.1, ext=0.05, depth=4, stmts=8))
    ts = [STRING, ARR(STRING), ST("hold", STRING), EN("may", STRING), FN([], STRING), BYTES, ST("hold", ARR(STRING)), EN("may", ST("hold", STRING)), ARR(EN("may", STRING)), ARR(FN([], STRING))]
    for t in ts: files += matrix(r, t, lambda b: fresh_value(b, t), frac=ctx.scale(0.35 if t != STRING else 1.0, 1.0), ext=False, head=collecting)
    files += forms3.heap_matrix(r, ctx.scale(1, 6)) + forms4.deep_files(r, ctx.thorough)
    check_core(ctx, files, what="garbage collection")
    from lib_a import heap_files
    if not ctx.too_many(): check_core(ctx, heap_files(ctx, r, 400, 4000), what="reachable objects are kept", probe="live")


# -------------------------------------------------------------------------------------------------- C19
# identifiers that mean something to assemblers, C libraries, linkers or the runtime
ODD = ["malloc", "free", "calloc", "exit_", "open", "read", "write", "close", "memcpy", "strlen", "time", "clock", "system", "abort", "main2", "_start", "start", "environ", "errno",
       "stdout", "stderr", "puts", "getenv", "rax", "eax", "al", "rbp", "rsp", "r8", "xmm0", "byte_", "word", "dword", "qword", "ptr", "offset", "global", "globl", "text", "data", "bss", "section", "align",
       "add", "sub", "mul", "mov", "call", "ret", "jmp", "push", "pop", "lea", "and_", "or_", "not_", "shl", "shr", "xor", "st", "si", "di", "bp", "sp", "ip", "flat", "type_", "equ", "db", "dq", "rip",
       "this", "self", "new", "null", "nil", "void", "char", "long", "int_", "string_", "bool_", "T", "K", "entry", "buckets", "head", "tail", "values", "frame", "block", "closure", "env", "args", "fp",
       "init", "fini", "index", "signal", "kill", "fork", "wait", "pipe", "bind", "send", "connect", "random", "rand", "abs", "div", "log", "sin", "y0", "j1", "gamma", "select", "remove_", "rename",
       "a", "Z", "_", "__", "x_1", "x1", "éa", "ß", "名前", "переменная", "αβ", "a" * 60, "sum", "map_", "list_", "Some_", "result_", "iffy", "fnord", "inner", "format", "notes", "orange", "android"]


def c19(ctx):
    r = random.Random(ctx.seed * 7919 + 19)
    files = []
    # odd identifiers in every role, every declaration order
    for k in range(ctx.scale(8, 80)):
        p = Prog()
        names = list(ODD)
        r.shuffle(names)
        nx = iter(names)
        decls = []
        bodies = []
        low = lambda n: n
        for c in range(7):
            f1, f2, s1, fl1, fl2, v1, v2, p1, e1 = [next(nx) for _ in range(9)]
            sn = s1 if s1[0].islower() and s1[0] != "ß" else "s" + s1
            st = Struct(sn + "S", [(fl1, INT), (fl2, STRING)])
            t = ST(st.name)
            decls.append(st)
            en = Enum("e" + e1, [("%s_A%d" % (e1, c), [(p1, INT)]), ("B_%s%d" % (e1, c), [])])
            decls.append(en)
            E = EN(en.name)
            decls.append(Fn(f1, [(p1, INT), (v1, t)], INT, expr=bin_("+", V(p1), fld(var(v1, t), fl1, INT))))
            decls.append(Fn(f2, [(v2, INT)], E, [if_([(bin_(">", V(v2), lit(0)), [ret(call(en.cases[0][0], [V(v2)], E))])]), ret(call(en.cases[1][0], [], E))]))
            body = [das(v1, call(st.cons, [lit(c), slit(v1)], t)), out(call(f1, [lit(3), var(v1, t)], INT)), out(fld(var(v1, t), fl2, STRING)),
                    match(call(f2, [lit(r.randint(-1, 1))], E), [(en.cases[1][0], [], [out(lit(1))]), (en.cases[0][0], [v2], [out(V(v2))])]),
                    range_(p1, lit(0), lit(2), [das(v2, bin_("*", V(p1), lit(2))), out(V(v2))]), das(e1 + "q", lam([(v2, INT)], INT, expr=bin_("+", V(v2), fld(var(v1, t), fl1, INT)))), out(call(e1 + "q", [lit(9)], INT))]
            bodies.append(body)
        r.shuffle(decls)
        for d in decls: p.add(d)
        f = File(p, add_cases(p, bodies))
        # main anywhere
        files.append(f)
    # general programs with every feature; declarations in random order
    for k in range(ctx.scale(14, 140)):
        f = general_file(r, cases=8, generics=0.4, closures=0.3, funcs=8, structs=0.3, enums=0.3, arrays=0.3, strings=0.3, blocks=4, depth=5, ext=0.05, bytes=0.1, returns=0.3, stmts=8)
        r.shuffle(f.prog.decls)
        files.append(f)
    # at the documented limits: 6 parameters, fields, captures; 5 for function values; deep nesting
    for k in range(ctx.scale(2, 10)):
        files.append(limits_file(r))
    for k in range(ctx.scale(8, 60)):
        files.append(rec_file(r))
    files += forms3.overload_files(r, ctx.scale(3, 21))
    files += forms3.large_files(r, ctx.thorough) + forms4.generic_files(r, ctx.scale(3, 30))
    check_core(ctx, files, what="valid programs are accepted")


def rec_file(r):
    """generic types that refer to themselves and to each other, declared in any order"""
    p = Prog()
    T, U = PAR("T"), PAR("U")
    nd = lambda t: ST("nd", t)
    op = lambda t: EN("may", t)
    two = lambda a, b: ST("two", a, b)
    decls = [Struct("nd", [("v", T), ("next", op(nd(T))), ("box", ARR(two(T, INT)))], ("T",)),
             Enum("may", [("Som", [("v", T)]), ("Non", [])], ("T",)),
             Struct("two", [("a", T), ("b", U), ("flip", op(two(U, T)))], ("T", "U")),
             Struct("use", [("n", nd(INT)), ("m", op(nd(STRING))), ("t", two(STRING, op(INT))), ("f", FN([nd(BOOL)], two(INT, BOOL)))]),
             Struct("wrap", [("inn", nd(nd(T))), ("k", T)], ("T",)),
             Enum("rose", [("Tip", [("x", T)]), ("Fork", [("l", EN("rose", T)), ("w", two(T, EN("rose", INT))), ("r", EN("rose", T))])], ("T",)),
             Fn("len", [("n", nd(T))], INT, [match(fld(var("n", nd(T)), "next", op(nd(T))), [("Non", [], [ret(lit(1))]), ("Som", ["q"], [ret(bin_("+", lit(1), call("len", [var("q", nd(T))], INT)))])])], tparams=("T",)),
             Fn("last", [("n", nd(T))], T, [match(fld(var("n", nd(T)), "next", op(nd(T))), [("Som", ["q"], [ret(call("last", [var("q", nd(T))], T))]), ("Non", [], [ret(fld(var("n", nd(T)), "v", T))])])], tparams=("T",)),
             Fn("swap", [("x", two(T, U))], two(U, T), [match(fld(var("x", two(T, U)), "flip", op(two(U, T))), [("Som", ["q"], [ret(var("q", two(U, T)))]), ("Non", [], [ret(call("Two", [fld(var("x", two(T, U)), "b", U), fld(var("x", two(T, U)), "a", T), call("Non", [], op(two(T, U)), (two(T, U),))], two(U, T)))])])], tparams=("T", "U")),
             Fn("tips", [("e", EN("rose", T))], INT, [match(var("e", EN("rose", T)), [("Fork", ["l", "w", "q"], [ret(bin_("+", bin_("*", call("tips", [var("l", EN("rose", T))], INT), call("tips", [fld(var("w", two(T, EN("rose", INT))), "b", EN("rose", INT))], INT)), call("tips", [var("q", EN("rose", T))], INT)))]), ("Tip", ["x"], [ret(lit(1))])])], tparams=("T",))]
    r.shuffle(decls)
    for d in decls: p.add(d)
    vals = {INT: lambda: lit(r.randint(0, 99)), STRING: lambda: slit(r.choice("abc")), BOOL: lambda: true() if r.random() < .5 else false()}

    def mk_two(a, b, d=1):
        return call("Two", [vals[a](), vals[b](), call("Som", [mk_two(b, a, d - 1)], op(two(b, a))) if d and r.random() < .7 else call("Non", [], op(two(b, a)), (two(b, a),))], two(a, b))

    def mk_nd(t, n):
        return call("Nd", [vals[t](), call("Som", [mk_nd(t, n - 1)], op(nd(t))) if n else call("Non", [], op(nd(t)), (nd(t),)), arr([mk_two(t, INT) for _ in range(r.randint(1, 2))])], nd(t))

    def mk_rose(t, n):
        if n == 0: return call("Tip", [vals[t]()], EN("rose", t))
        w = two(t, EN("rose", INT))
        return call("Fork", [mk_rose(t, n - 1), call("Two", [vals[t](), mk_rose(INT, n - 1), call("Non", [], op(two(EN("rose", INT), t)), (two(EN("rose", INT), t),))], w), mk_rose(t, 0)], EN("rose", t))
    bodies = []
    for t in (INT, STRING, BOOL):
        n = r.randint(1, 4)
        N_ = var("n", nd(t))
        b = [das("n", mk_nd(t, n)), out(call("len", [N_], INT)), das("z", call("last", [N_], t)), out(var("z", t)) if t != BOOL else out(tern(var("z", t), lit(1), lit(0))),
             das("w", idx(fld(N_, "box", ARR(two(t, INT))), lit(0))), out(fld(var("w", two(t, INT)), "b", INT)), das("f", call("swap", [var("w", two(t, INT))], two(INT, t))), out(fld(var("f", two(INT, t)), "a", INT)),
             match(fld(N_, "next", op(nd(t))), [("Som", ["q"], [match(fld(var("q", nd(t)), "next", op(nd(t))), [("Som", ["q2"], [as_(fld(var("q2", nd(t)), "v", t), vals[t]()), out(call("len", [var("q2", nd(t))], INT))]), ("Non", [], [out(slit("one"))])])]), ("Non", [], [out(slit("zero"))])]),
             das("zz", call("last", [N_], t)), out(var("zz", t)) if t != BOOL else out(tern(var("zz", t), lit(3), lit(4)))]
        bodies.append(b)
        bodies.append([out(call("tips", [mk_rose(t, 2)], INT))])
    W = ST("wrap", INT)
    bodies.append([das("i", mk_nd(INT, 1)), das("w", call("Wrap", [call("Nd", [V2("i", nd(INT)), call("Non", [], op(nd(nd(INT))), (nd(nd(INT)),)), arr([call("Two", [V2("i", nd(INT)), lit(5), call("Non", [], op(two(INT, nd(INT))), (two(INT, nd(INT)),))], two(nd(INT), INT))])], nd(nd(INT))), lit(6)], W)),
                   out(fld(V2("w", W), "k", INT)), out(fld(fld(fld(V2("w", W), "inn", nd(nd(INT))), "v", nd(INT)), "v", INT)), out(fld(fld(idx(fld(fld(V2("w", W), "inn", nd(nd(INT))), "box", ARR(two(nd(INT), INT))), lit(0)), "a", nd(INT)), "v", INT))])
    US = ST("use")
    bodies.append([das("u", call("Use", [mk_nd(INT, 2), call("Som", [mk_nd(STRING, 1)], op(nd(STRING))), call("Two", [slit("s"), call("Som", [lit(8)], op(INT)), call("Non", [], op(two(op(INT), STRING)), (two(op(INT), STRING),))], two(STRING, op(INT))),
                                       lam([("x", nd(BOOL))], two(INT, BOOL), expr=call("Two", [call("len", [V2("x", nd(BOOL))], INT), fld(V2("x", nd(BOOL)), "v", BOOL), call("Non", [], op(two(BOOL, INT)), (two(BOOL, INT),))], two(INT, BOOL)))], US)),
                   out(call("len", [fld(V2("u", US), "n", nd(INT))], INT)), match(fld(fld(V2("u", US), "t", two(STRING, op(INT))), "b", op(INT)), [("Som", ["k"], [out(bin_("+", V("k"), lit(1)))]), ("Non", [], [])]),
                   match(fld(V2("u", US), "m", op(nd(STRING))), [("Non", [], []), ("Som", ["k"], [out(fld(V2("k", nd(STRING)), "v", STRING)), out(call("last", [V2("k", nd(STRING))], STRING))])]),
                   das("g", fld(V2("u", US), "f", FN([nd(BOOL)], two(INT, BOOL)))), out(fld(call("g", [mk_nd(BOOL, 3)], two(INT, BOOL)), "a", INT))])
    return File(p, add_cases(p, bodies))


def V2(n, t): return var(n, t)


def limits_file(r):
    p = Prog()
    bodies = []
    kinds = [INT, STRING, BOOL, ARR(INT), FN([INT], INT)]
    g = Gen(r, structs=0, enums=0, closures=0.2, depth=2)
    g.prog = p
    for c in range(3):
        ts = [r.choice(kinds) for _ in range(6)]
        nm = ["p%d" % j for j in range(6)]
        p.add(Fn("lim%d" % c, list(zip(nm, ts)), INT, g_dump(g, nm, ts) + [ret(lit(c))]))
        p.add(Struct("big%d" % c, list(zip(nm, ts))))
        p.add(Enum("enu%d" % c, [("En%d%s" % (c, "ABCDEFGHIJ"[q]), list(zip(nm, ts))[:q % 6]) for q in range(10)]))
        B = ST("big%d" % c)
        E = EN("enu%d" % c)
        bodies.append([out(call("lim%d" % c, [g.leaf(t, [], 1) for t in ts], INT)), das("o", call("Big%d" % c, [g.leaf(t, [], 1) for t in ts], B))] + sum([g.dump_var(fld(var("o", B), n, t), t, 2) for n, t in zip(nm, ts)], []))
        bodies.append([match(call("En%d%s" % (c, "ABCDEFGHIJ"[q]), [g.leaf(t, [], 1) for t in ts[:q % 6]], E), [("En%d%s" % (c, "ABCDEFGHIJ"[w]), nm[:w % 6], [out(lit(w))] + g_dump(g, nm[:w % 6], ts[:w % 6])) for w in range(10)]) for q in range(10)])
        cap = [das("c%d" % j, g.leaf(t, [], 1)) for j, t in enumerate(ts)]
        ps5 = [("a%d" % j, t) for j, t in enumerate(ts[:5])]
        bodies.append(cap + [das("cl", lam(ps5, INT, body=g_dump(g, ["c%d" % j for j in range(6)], ts) + g_dump(g, [a for a, _ in ps5], ts[:5]) + [ret(lit(1))])), out(call("cl", [g.leaf(t, [], 1) for t in ts[:5]], INT))])
    # deep nesting of blocks, expressions, types and function values
    d = r.randint(12, 25)
    b = [out(V("n"))]
    for j in range(d): b = [if_([(bin_(">=", V("n"), lit(0)), [das("m%d" % j, bin_("+", V("n"), lit(j)))] + b)])] if j % 3 else [range_("i%d" % j, lit(0), lit(1), b)]
    bodies.append([das("n", lit(1))] + b)
    e = lit(1)
    for j in range(60): e = bin_(r.choice(["+", "-", "*", "^"]), e, lit(j)) if r.random() < .5 else bin_(r.choice(["+", "-", "*", "^"]), lit(j), e)
    bodies.append([out(e)])
    e = lit(2)
    for j in range(15): e = tern(bin_(">", e if j < 3 else lit(j), lit(7)), lit(j), e)
    bodies.append([out(e)])
    t, e = INT, lit(4)
    for j in range(8): e = arr([e])
    x = e
    for j in range(8): x = idx(x, lit(0))
    bodies.append([out(x)])
    f = lam([], INT, expr=lit(5))
    for j in range(4): f = lam([], f.t, body=[das("z%d" % j, lit(j)), out(V("z%d" % j)), ret(f)])
    ss = [das("f", f)]
    cur = var("f", f.t)
    nm = "f"
    ft = f.t
    for j in range(5):
        ft2 = ft[2]
        if ft2[0] == "fn": ss.append(das("g%d" % j, call(nm, [], ft2))); nm, ft = "g%d" % j, ft2
        else: ss.append(out(call(nm, [], ft2)))
    bodies.append(ss)
    # many locals, long bodies, empty bodies
    bodies.append(sum([[das("v%d" % j, lit(j * 3)), out(V("v%d" % j))] for j in range(80)], []))
    bodies.append([if_([(true(), [])], []), range_("i", lit(0), lit(2), []), while_(false(), []), each("q", arr([lit(1)]), [])])
    return File(p, add_cases(p, bodies))


def g_dump(g, names, ts):
    return sum([g.dump_var(var(n, t), t, 2) for n, t in zip(names, ts)], [])


# -------------------------------------------------------------------------------------------------- C29
class Variant(File):
    """the same program written differently"""

    def __init__(self, base, names=None, **kw):
        File.__init__(self, base.prog, base.entries, externs=base.externs, flat=base.flat, **kw)
        self.base, self.names = base, names

    def json(self):
        if not hasattr(self.base, "_json"): self.base._json = self.base.json()
        return self.base._json

    def source(self):
        p = self.full()
        if self.names: p = rename_vars(p, self.names)
        return source(p, self.rng, self.mode, self.paren)


def walk(n, f):
    if isinstance(n, N):
        f(n)
        for v in list(n.__dict__.values()): walk(v, f)
    elif isinstance(n, (list, tuple)):
        for x in n: walk(x, f)


def variables(p):
    vs = set()

    def see(n):
        if n.k in ("das", "range", "each"): vs.add(n.n)
        if n.k == "match":
            for c, v, b in n.cases: vs.update(v)
        if n.k == "lam": vs.update(a for a, _ in n.params)
    for d in p.decls:
        if isinstance(d, Fn) and not d.extern:
            vs.update(a for a, _ in d.params)
            walk(d.body, see)
            walk(d.expr, see)
    return vs


def rename_vars(p, m):
    p = copy.deepcopy(p)
    g = lambda n: m.get(n, n)

    def see(n):
        if n.k in ("das", "range", "each", "var"): n.n = g(n.n)
        if n.k == "match": n.cases = [(c, [g(x) for x in v], b) for c, v, b in n.cases]
        if n.k == "lam": n.params = [(g(a), t) for a, t in n.params]
        if n.k == "call": n.f = g(n.f)
    for d in p.decls:
        if isinstance(d, Fn) and not d.extern:
            d.params = [(g(a), t) for a, t in d.params]
            walk(d.body, see)
            walk(d.expr, see)
    return p


def c29(ctx):
    r = random.Random(ctx.seed * 7919 + 29)
    files = []
    for k in range(ctx.scale(5, 50)):
        prof = r.choice([dict(closures=0.3, generics=0.3), dict(structs=0.4, arrays=0.4), dict(enums=0.5, loops=0.4), dict(strings=0.5, ternary=0.4), dict(ext=0.2, tick=0.2)])
        f = general_file(r, cases=8, funcs=5, **prof)
        files.append(f)
        rr = lambda: random.Random(r.getrandbits(32))
        files.append(Variant(f, mode="dense"))
        files.append(Variant(f, mode="wild", rng=rr()))
        q = rr()
        files.append(Variant(f, mode="pretty", paren=lambda n, q=q: q.random() < .35))
        q2 = rr()
        fns = {d.name for d in f.prog.decls} | {d.name for d in f.externs} | {t for d in f.prog.decls for t in d.tparams}
        vs = sorted(variables(f.prog))
        pool = [n for n in ODD + ["zz%d" % i for i in range(len(vs))] if n not in vs and n not in fns and n not in ("printf", "free", "calloc", "_", "__", "time", "open", "read", "index", "remove")]
        q2.shuffle(pool)
        names = dict(zip(vs, pool))
        files.append(Variant(f, names=names, mode="wild", rng=rr(), paren=lambda n, q2=q2: q2.random() < .15))
        files.append(Variant(f, names=names))
    check_core(ctx, files, what="layout, parentheses and variable names")
