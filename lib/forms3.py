"""Systematic forms, third part: overload sets over many type shapes (C07, C19), heap shapes of every size (C16)."""
import itertools
from clara import *
from gen import *
from forms import *

A, B_, T_ = PAR("A"), PAR("B"), PAR("T")


# ---------------------------------------------------------------------------------------------- overloads (C07, C19)
OWN = {"duo": ("duo", "Duo"), "alt": ("alt", "Lhs", "Rhs"), "opt": ("opt", "Nop", "Yep")}
LIB = [{"duo": ("pair", "Pair"), "alt": ("result", "Ok", "Err"), "opt": ("option", "None", "Some")}, {"duo": ("pair", "Pair"), "alt": ("either", "Left", "Right"), "opt": ("option", "None", "Some")}]


def shapes(L):
    """many types, most of them next to others that differ from them in a single place"""
    D = lambda a, b: ST(L["duo"][0], a, b)
    E = lambda a, b: EN(L["alt"][0], a, b)
    O = lambda a: EN(L["opt"][0], a)
    P = ST("pt")
    base = [INT, STRING, BOOL, BYTES, P, ST("pt_"), EN("hue")]
    ts = list(base)
    ts += [ARR(t) for t in base] + [ARR(ARR(t)) for t in (INT, STRING, P)] + [ARR(ARR(ARR(t))) for t in (INT, STRING)]
    for G in (D, E):
        ts += [G(a, b) for a in (INT, STRING) for b in (INT, STRING, BOOL)] + [G(ARR(INT), INT), G(INT, ARR(INT)), G(INT, G(INT, INT)), G(G(INT, INT), INT), G(INT, G(INT, STRING)), G(INT, O(INT)), ARR(G(INT, INT)), ARR(G(INT, STRING)), G(P, INT), G(INT, P)]
    ts += [O(t) for t in base] + [O(O(INT)), O(O(STRING)), O(ARR(INT)), O(ARR(STRING)), ARR(O(INT)), ARR(O(STRING)), O(D(INT, STRING)), O(D(INT, INT)), O(E(INT, STRING)), ST("cell", INT), ST("cell", STRING), ST("cell", O(INT))]
    ts += [FN([], INT), FN([], STRING), FN([], NOTHING), FN([INT], INT), FN([INT], STRING), FN([STRING], INT), FN([INT], NOTHING), FN([STRING], NOTHING), FN([INT, INT], INT), FN([INT, STRING], INT), FN([STRING, INT], INT), FN([INT, INT], BOOL),
           FN([INT, INT, INT], INT), FN([INT, INT, STRING], INT), FN([ARR(INT)], INT), FN([INT], ARR(INT)), FN([FN([INT], INT)], INT), FN([FN([INT], STRING)], INT), FN([FN([], INT)], INT), FN([], FN([INT], INT)), FN([INT], FN([], INT)), FN([INT], FN([INT], INT)),
           FN([O(INT)], INT), FN([O(STRING)], INT), FN([INT], O(INT)), FN([D(INT, STRING)], INT), FN([D(INT, INT)], INT), ARR(FN([], INT)), ARR(FN([INT], INT)), O(FN([INT], INT)), O(FN([], INT))]
    return ts + [ST("array", INT), ST("array", STRING), ST("array", ST("array", INT)), ARR(ST("array", INT))]


def erase(t):
    """functions that differ only in what they return do not make overloads different (see Clash in ClaraTypes)"""
    if t[0] == "arr": return ARR(erase(t[1]))
    if t[0] == "fn": return FN([erase(x) for x in t[1]], NOTHING)
    if t[0] in ("st", "en"): return (t[0], t[1], tuple(erase(x) for x in t[2]))
    return t


def distinct(r, L):
    """the shapes in random order, one for each erased shape"""
    ts = shapes(L)
    r.shuffle(ts)
    return list({erase(t): t for t in ts}.values())


def shape_decls(L):
    return shape_types()[:5] + generic_types(L) if L is OWN else shape_types()


def generic_types(L):
    """the generic types the shapes use: declared by the program, or by the library"""
    return [Struct(L["duo"][0], [("first" if L is not OWN else "l", A), ("second" if L is not OWN else "r", B_)], ("A", "B")), Enum(L["alt"][0], [(L["alt"][1], [("val", A)]), (L["alt"][2], [("val", B_)])], ("A", "B")),
            Enum(L["opt"][0], [(L["opt"][1], []), (L["opt"][2], [("t", T_)])] if L is OWN else [(L["opt"][2], [("t", T_)]), (L["opt"][1], [])], ("T",))]


def shape_types():
    return [Struct("pt", [("x", INT)]), Struct("pt_", [("x", INT)]), Struct("array", [("e", T_), ("k", INT)], ("T",)), Struct("cell", [("c", T_)], ("T",)), Enum("hue", [("Dark", []), ("Pale", [("k", INT)])])]


def shape_value(r, t, k=0, L=None):
    """an expression of type t"""
    L = L or r.names
    v = lambda x: shape_value(r, x, k + 1, L)
    if t == INT: return lit(r.randint(0, 99))
    if t == STRING: return slit(r.choice(["u", "vv"]))
    if t == BOOL: return blit(r.random() < .5)
    if t == BYTES: return call("Bytes", [lit(2)], BYTES)
    if t[0] == "arr": return arr([v(t[1]) for _ in range(r.randint(1, 2))]) if k or t[1][0] == "fn" or r.random() < .7 else call("array", [lit(2), v(t[1])], t)
    if t[0] == "fn":
        ps = [("z%d%s" % (i, "q" * k), x) for i, x in enumerate(t[1])]
        return lam(ps, t[2], body=[]) if t[2] == NOTHING else lam(ps, t[2], expr=v(t[2])) if r.random() < .5 else lam(ps, t[2], body=[ret(v(t[2]))])
    n = t[1]
    if n == "pt": return call("Pt", [lit(3)], t)
    if n == "pt_": return call("Pt_", [lit(4)], t)
    if n == L["duo"][0]: return call(L["duo"][1], [v(t[2][0]), v(t[2][1])], t)
    if n == "array": return call("Array", [v(t[2][0]), lit(1)], t)
    if n == "cell": return call("Cell", [v(t[2][0])], t)
    if n == "hue": return r.choice([call("Dark", [], t), call("Pale", [lit(1)], t)])
    if n == L["alt"][0]: return call(L["alt"][1], [v(t[2][0])], t, t[2]) if r.random() < .5 else call(L["alt"][2], [v(t[2][1])], t, t[2])
    if n == L["opt"][0]: return call(L["opt"][2], [v(t[2][0])], t) if r.random() < .6 else call(L["opt"][1], [], t, t[2])
    raise Exception(t)


def overload_files(r, n):
    """functions overloaded over every shape of type: alone, before and after other parameters, as methods, as function values"""
    from core import File
    from core_a import add_cases
    files = []
    for k in range(n):
        L = r.names = OWN if k % 3 == 0 else LIB[k % 3 - 1]
        ts = distinct(r, L)
        p = Prog()
        decls = shape_decls(L)
        bodies = [[]]
        # one parameter: every shape is an overload of its own
        one = ts[:r.choice([45, 60, len(ts)])]
        forms = ["call", "var", "dot", "hold"]
        for i, t in enumerate(one):
            rt = r.choice([INT, STRING, BOOL])
            decls.append(Fn("pick", [("x", t)], rt, [out(lit(1000 + i)), ret(shape_value(r, rt))]))
            if len(bodies[-1]) > 40: bodies.append([])
            val = shape_value(r, t)
            f = r.choice(forms)
            nm = "n%d" % i
            if f == "call": bodies[-1] += [out(call("pick", [val], rt))]
            elif f == "var": bodies[-1] += [das(nm, val), out(call("pick", [var(nm, t)], rt))]
            elif f == "dot" and val.k in ("call", "arr", "str"): bodies[-1] += [out(dot(val, "pick", [], rt))]
            elif f == "dot": bodies[-1] += [das(nm, val), out(dot(var(nm, t), "pick", [], rt))]
            else: bodies[-1] += [das(nm, call("Cell", [val], ST("cell", t))), out(call("pick", [fld(var(nm, ST("cell", t)), "c", t)], rt))]
        # several parameters: the shape is in one position, the others are fixed
        for name, m in (("mid", 3), ("tail", 6), ("head", 2), ("both", 2)):
            pos = {"mid": 1, "tail": 5, "head": 0, "both": 1}[name]
            r.shuffle(ts)
            for i, t in enumerate(ts[:16]):
                others = [r.choice([INT, STRING]) if name == "both" else INT for _ in range(m)]
                ps = [("p%d" % j, t if j == pos else others[j]) for j in range(m)]
                decls.append(Fn(name, ps, INT, [out(lit(3000 + i)), ret(lit(i))]))
                if len(bodies[-1]) > 40: bodies.append([])
                bodies[-1].append(out(call(name, [shape_value(r, x) for _, x in ps], INT)))
        # function values: the overload that has the wanted type
        fts = r.sample([t for t in ts if t[0] != "fn" and t != BYTES], 8)
        for i, t in enumerate(fts):
            decls.append(Fn("sel", [("x", t)], INT, [out(lit(5000 + i)), ret(lit(i))]))
            decls.append(Fn("use", [("f", FN([t], INT)), ("x", t)], INT, [out(lit(5100 + i)), ret(call("f", [var("x", t)], INT))]))
            decls.append(Fn("rev", [("x", t), ("f", FN([t], INT))], INT, [out(lit(5200 + i)), ret(call("f", [var("x", t)], INT))]))
        for i, t in enumerate(fts):
            f = lambda: var("sel", FN([t], INT))
            bodies.append([out(call("use", [f(), shape_value(r, t)], INT)), out(call("rev", [shape_value(r, t), f()], INT)), das("xx", shape_value(r, t)), out(call("use", [f(), var("xx", t)], INT)), out(dot(var("xx", t), "rev", [f()], INT)),
                           out(call("gen1", [shape_value(r, t), f()], INT)), out(call("gen3", [lit(1), shape_value(r, t), f()], INT))])
        # generic functions that take them: the type is settled by the argument before, or only one overload has the wanted form
        decls.append(Fn("gen1", [("x", T_), ("f", FN([T_], INT))], INT, expr=call("f", [var("x", T_)], INT), tparams=("T",)))
        decls.append(Fn("gen3", [("n", INT), ("x", T_), ("f", FN([T_], A))], A, [out(V("n")), ret(call("f", [var("x", T_)], A))], tparams=("T", "A")))
        decls.append(Fn("fit", [("f", FN([T_, INT], T_)), ("x", T_)], T_, expr=call("f", [var("x", T_), lit(5)], T_), tparams=("T",)))
        good = r.choice([INT, STRING, ST("pt")])
        ov = [Fn("two", [("a", STRING), ("b", STRING)], STRING, [out(lit(6001)), ret(var("a", STRING))]), Fn("two", [("a", good), ("b", INT)], good, [out(lit(6002)), ret(var("a", good))]), Fn("two", [("a", BOOL), ("b", INT)], INT, [out(lit(6003)), ret(lit(2))]), Fn("two", [("a", ARR(INT))], ARR(INT), [out(lit(6004)), ret(var("a", ARR(INT)))])]
        r.shuffle(ov)
        decls += ov
        res = call("fit", [var("two", FN([good, INT], good)), shape_value(r, good)], good)
        bodies.append([out(fld(res, "x", INT) if good == ST("pt") else res)])
        r.shuffle(decls)
        for d in decls: p.add(d)
        files.append(File(p, add_cases(p, [b for b in bodies if b])))
        if L is not OWN: files[-1].hidden = generic_types(L)
    return files


# ---------------------------------------------------------------------------------------------- heap shapes (C16)
SIZES = [1, 2, 3, 4, 5, 7, 8, 9, 10, 12, 15, 16, 17, 20, 24, 31, 32, 33, 40, 47, 63, 64, 65]


def heap_matrix(rng, n=1):
    """objects of every kind and size: arrays of every element kind, held in every kind of place, strings, structs, cases and
    environments with the objects in every position, functions with many locals; all shown after collections"""
    EL = [STRING, ARR(STRING), ST("hold", STRING), EN("may", STRING), FN([], STRING), BYTES, ARR(ARR(STRING)), ST("hold", ARR(STRING)), INT]
    HOW = ["fill", "filldown", "lit", "const", "copy"]
    HOLD = ["local", "param", "field", "elem", "casepar", "captured", "returned", "tmp", "generic"]
    dims = (len(EL), len(SIZES), len(HOW), len(HOLD))
    rows = pairwise(rng, *dims) * n
    GCX = lambda: expr(call("gc", [], NOTHING))

    def head(b):
        collecting(b)
        p = b.p
        p.add(Fn("junk", [("n", INT)], INT, [range_("i", lit(0), V("n"), [das("t", call("append", [slit("junk"), call("toString", [V("i")], STRING)], STRING)), das("u", arr([var("t", STRING), var("t", STRING)]))]), GCX(), ret(V("n"))]))
        p.add(Fn("num", [("k", INT)], STRING, expr=call("append", [slit("e"), call("toString", [V("k")], STRING)], STRING)))

    def mk(b, t, k):
        s = lambda: call("num", [k], STRING)
        if t == INT: return bin_("*", k, lit(8))
        if t == STRING: return s()
        if t == BYTES: return call("mkb", [k], BYTES)
        if t[0] == "arr": return arr([mk(b, t[1], k)])
        if t[0] == "fn": return call("mkf", [s()], t)
        if t[1] == "hold": return call("Hold", [mk(b, t[2][0], k), k], t)
        return call("Has", [k, mk(b, t[2][0], k)], t)

    def probe(b, q):
        t, n_, how, hold = EL[q[0]], SIZES[q[1]], HOW[q[2]], HOLD[q[3]]
        if t[0] == "arr" and t[1][0] == "arr" and n_ > 33: n_ = 33
        if how == "lit" and n_ > 33: n_ = 33
        At = ARR(t)
        f = b.fresh("hm")
        a = var("a", At)
        if how == "lit": body = [das("a", arr([mk(b, t, lit(i)) for i in range(n_)]))]
        elif how == "const": body = [das("a", call("array", [lit(n_), mk(b, t, lit(7))], At))]
        elif how == "copy": body = [das("s", call("array", [lit(n_), mk(b, t, lit(7))], At)), das("a", call("array", [lit(n_), mk(b, t, lit(9))], At)), range_("i", lit(0), lit(n_), [as_(idx(var("s", At), V("i")), mk(b, t, V("i"))), as_(idx(a, V("i")), idx(var("s", At), V("i")))])]
        else: body = [das("a", call("array", [lit(n_), mk(b, t, lit(7))], At)), range_("i", *((lit(0), lit(n_)) if how == "fill" else (lit(n_ - 1), lit(0))), [as_(idx(a, V("i")), mk(b, t, V("i")))])]
        b.p.add(Fn(f, [], At, body + [ret(a)]))
        c = lambda: call(f, [], At)
        jk = [GCX(), expr(call("junk", [lit(6)], INT))]
        sh = lambda e: [each("el", e, b.show(var("el", t), t))]
        if hold == "local": return [das("x", c())] + jk + sh(var("x", At))
        if hold == "param": b.p.add(Fn("p" + f, [("k", INT), ("x", At)], NOTHING, jk + sh(var("x", At)))); return [expr(call("p" + f, [lit(1), c()], NOTHING))]
        if hold == "field": H = ST("hold", At); return [das("h", call("Hold", [c(), lit(5)], H))] + jk + sh(fld(var("h", H), "v", At))
        if hold == "elem": return [das("h", arr([c(), c()]))] + jk + sh(idx(var("h", ARR(At)), lit(1)))
        if hold == "casepar": return [das("h", call("Has", [lit(1), c()], EN("may", At)))] + jk + [match(var("h", EN("may", At)), [("Has", ["k", "x"], jk + sh(var("x", At))), ("Hasnt", [], [])])]
        if hold == "captured": return [das("x", c()), das("fx", lam([], At, body=[GCX(), ret(var("x", At))]))] + jk + sh(call("fx", [], At))
        if hold == "returned": b.p.add(Fn("r" + f, [], At, [das("x", c())] + jk + [ret(var("x", At))])); return sh(call("r" + f, [], At))
        if hold == "tmp": return [each("el", c(), jk[:1] + b.show(var("el", t), t))] if n_ < 20 else sh(call("idT", [c()], At))
        return [das("x", call("second", [call("junk", [lit(2)], INT), c()], At))] + jk + sh(call("idB", [var("x", At)], At))
    files = batches(rng, False, [lambda b, q=q: probe(b, q) for q in rows], head=head, per_case=6, per_file=16)

    # many locals, all alive over a collection; in order of declaration and in nested blocks
    def many(b, k):
        ss, sh = [], []
        for i in range(k):
            ss.append(das("m%d" % i, lit(i * 8) if i % 3 == 1 else call("num", [lit(i)], STRING)))
            sh.append(out(var("m%d" % i, INT if i % 3 == 1 else STRING)))
        return ss + [GCX(), expr(call("junk", [lit(3)], INT))] + sh

    def blocks_(b, k):
        ss = [GCX(), expr(call("junk", [lit(2)], INT))] + [out(var("m%d" % i, STRING)) for i in range(k)]
        for i in reversed(range(k)): ss = [das("m%d" % i, call("num", [lit(i)], STRING)), if_([(true(), ss)], [out(lit(0))])]
        return ss
    pr = [lambda b, k=k: many(b, k) for k in (1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 34, 63, 64, 65, 66, 127, 128, 129, 150)]
    pr += [lambda b, k=k: blocks_(b, k) for k in (2, 5, 9, 17)]
    files += batches(rng, False, pr, head=head, per_case=3, per_file=16)
    return files


# ---------------------------------------------------------------------------------------------- sizes (C19)
def large_files(r, full=False):
    """programs that are large in one respect: variables, parameters in use, nesting, strings, literals, cases, declarations"""
    from core import File
    from core_a import add_cases

    def one(body, decls=()):
        p = Prog()
        for d in decls: p.add(d)
        return File(p, add_cases(p, [body]))
    fs = []
    for n in [257, 4094, 4096, 4200] + ([8200, 9000] if full else []):      # around the limits of 8, 15 and 16 bit offsets
        # blocks keep the specification's environment small: variables of closed blocks keep their places
        ss = [das("k", lit(n))]
        at = 0
        while at < n - 40:
            m = min(400, n - 40 - at)
            ss.append(if_([(true(), [das("w%d" % (at + i), lit(at + i)) for i in range(m)] + [out(V("w%d" % (at + m - 1)))])]))
            at += m
        ss += [das("v%d" % i, lit(i)) for i in range(40)] + [das("s", call("append", [slit("a"), slit("b")], STRING)), das("f", lam([("q", INT)], INT, expr=bin_("+", V("q"), bin_("+", V("v39"), V("k"))))), out(V("v0")), out(V("v39")), out(V("k")), out(var("s", STRING)), out(call("f", [lit(1)], INT)), out(call("toString", [V("v38")], STRING))]
        fs.append(one(ss))
    fs.append(one([out(call("f%d" % i, [lit(i)], INT)) for i in (0, 1, 150, 299)], [Fn("f%d" % i, [("x", INT)], INT, expr=bin_("+", V("x"), lit(i)) if i == 0 else bin_("-", call("f%d" % (i - 1), [V("x")], INT), lit(1)) if i < 30 else bin_("*", V("x"), lit(2))) for i in range(300)]))
    E = EN("wide")
    cs = [("W%d" % i, [("a", INT)] if i % 2 else []) for i in range(130)]
    fs.append(one([out(call("w", [call("W%d" % i, [lit(i)] if i % 2 else [], E)], INT)) for i in (0, 1, 63, 64, 65, 127, 128, 129)],
                  [Enum("wide", cs), Fn("w", [("e", E)], INT, [match(var("e", E), [(c, ["z"] if ps else [], [ret(V("z") if ps else lit(1000 + i))]) for i, (c, ps) in enumerate(cs)])])]))
    big = "".join(r.choice("abcdefgh ") for _ in range(5000))
    fs.append(one([das("s", slit(big)), out(fld(var("s", STRING), "length", INT)), out(var("s", STRING))]))
    fs.append(one([das("a", arr([lit(i) for i in range(300)])), out(idx(var("a", ARR(INT)), lit(299))), out(fld(var("a", ARR(INT)), "length", INT))]))
    fs.append(one([das("n", lit(3)), if_([(bin_("==", V("n"), lit(i)), [out(lit(i))]) for i in range(5, 90)], [out(lit(777))]), if_([(bin_("==", V("n"), lit(90 - i)), [out(lit(i))]) for i in range(89)], [])]))
    e = lit(1)
    for i in range(200): e = bin_("+", e, lit(i)) if i % 2 else bin_("-", lit(i), e)
    fs.append(one([out(e)]))
    return fs
