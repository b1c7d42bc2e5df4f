"""More systematic forms: blocks (every kind of block, run or not), scopes, loops and exits, captures, records, matches."""
import itertools
from clara import *
from gen import *
from forms import Bench, V, pairwise, batches, fresh_value

A1 = ARR(INT)
MAY = EN("may", INT)
F0 = FN([], INT)


def add(a, b): return bin_("+", a, b)


# ---------------------------------------------------------------------------------------------- blocks
def blocks():
    """[(name, runs, fn(bench, body) -> statements)]: every way to have a block of statements; `runs`: how often it is executed.
    The body may declare anything; names made here are fresh."""
    def w(f): return lambda b, s: f(b.fresh("k"), b, s)
    no = lambda: out(slit("no"))
    return [("if", 1, w(lambda n, b, s: [if_([(true(), s)])])),
            ("if0", 0, w(lambda n, b, s: [if_([(false(), s)])])),
            ("ifelse", 1, w(lambda n, b, s: [das(n, lit(1)), if_([(bin_("==", V(n), lit(1)), s)], [no()])])),
            ("else", 1, w(lambda n, b, s: [das(n, lit(1)), if_([(bin_("==", V(n), lit(2)), [no()])], s)])),
            ("elseempty", 1, w(lambda n, b, s: [if_([(false(), [])], s)])),
            ("else0", 0, w(lambda n, b, s: [if_([(true(), [out(slit("yes"))])], s)])),
            ("elif", 1, w(lambda n, b, s: [if_([(false(), [no()]), (true(), s)])])),
            ("elif2", 1, w(lambda n, b, s: [das(n, lit(5)), if_([(bin_("<", V(n), lit(2)), [no()]), (bin_("<", V(n), lit(3)), [no()]), (bin_("<", V(n), lit(9)), s), (true(), [no()])], [no()])])),
            ("elifelse", 1, w(lambda n, b, s: [if_([(false(), [no()]), (false(), [no()])], s)])),
            ("elif0", 0, w(lambda n, b, s: [if_([(true(), []), (true(), s)], [no()])])),
            ("while", 2, w(lambda n, b, s: [das(n, lit(0)), while_(bin_("<", V(n), lit(2)), [as_(V(n), add(V(n), lit(1)))] + s)])),
            ("whilelast", 1, w(lambda n, b, s: [das(n, lit(0)), while_(bin_("==", V(n), lit(0)), s + [as_(V(n), lit(7))])])),
            ("while0", 0, w(lambda n, b, s: [while_(false(), s)])),
            ("range", 2, w(lambda n, b, s: [range_(n, lit(0), lit(2), s)])),
            ("rangevar", 3, w(lambda n, b, s: [das(n + "h", lit(4)), range_(n, lit(1), V(n + "h"), s + [out(V(n))])])),
            ("down", 2, w(lambda n, b, s: [range_(n, lit(2), lit(0), s)])),
            ("range0", 0, w(lambda n, b, s: [range_(n, lit(3), lit(3), s)])),
            ("each", 2, w(lambda n, b, s: [each(n, arr([lit(8), lit(9)]), s)])),
            ("each1", 1, w(lambda n, b, s: [das(n + "a", arr([lit(8)])), each(n, var(n + "a", A1), s + [out(V(n))])])),
            ("case1", 1, w(lambda n, b, s: [match(call("Has", [lit(3), lit(4)], MAY), [("Has", [n, n + "w"], s), ("Hasnt", [], [no()])])])),
            ("case2", 1, w(lambda n, b, s: [das(n + "m", call("Has", [lit(3), lit(4)], MAY)), match(var(n + "m", MAY), [("Hasnt", [], [no()]), ("Has", [n, n + "w"], s + [out(V(n)), out(V(n + "w"))])])])),
            ("caseempty", 1, w(lambda n, b, s: [das(n + "m", call("Hasnt", [], MAY, (INT,))), match(var(n + "m", MAY), [("Has", [n, n + "w"], []), ("Hasnt", [], s)])])),
            ("case0", 0, w(lambda n, b, s: [das(n + "m", call("Hasnt", [], MAY, (INT,))), match(var(n + "m", MAY), [("Has", [n, n + "w"], s), ("Hasnt", [], [no()])])]))]


def lam_blocks():
    """blocks that are bodies of function values: assignments to outer variables change a copy"""
    def w(f): return lambda b, s: f(b.fresh("k"), b, s)
    return [("lam", 1, w(lambda n, b, s: [das(n, lam([], NOTHING, body=s)), expr(call(n, [], NOTHING))])),
            ("lam2", 2, w(lambda n, b, s: [das(n, lam([(n + "p", INT)], NOTHING, body=s + [out(V(n + "p"))])), expr(call(n, [lit(1)], NOTHING)), expr(call(n, [lit(2)], NOTHING))])),
            ("lamret", 1, w(lambda n, b, s: [das(n, lam([], INT, body=s + [ret(lit(6))])), out(call(n, [], INT))])),
            ("lam0", 0, w(lambda n, b, s: [das(n, lam([], NOTHING, body=s))]))]


# ---------------------------------------------------------------------------------------------- scopes (C05)
def scope_bodies():
    """[(name, needs outer x, fn(bench, k) -> statements)] about the variable x (int) unless the body declares it otherwise"""
    X, S = V("x"), var("x", STRING)
    bs = [("das", False, lambda b, k: [das("x", lit(k))]),
          ("dasout", False, lambda b, k: [das("x", lit(k)), out(X)]),
          ("outdas", True, lambda b, k: [out(X), das("x", lit(k))]),
          ("outdasout", True, lambda b, k: [out(X), das("x", lit(k)), out(X)]),
          ("self", True, lambda b, k: [das("x", add(X, lit(k))), out(X)]),
          ("selfonly", True, lambda b, k: [das("x", add(X, lit(k)))]),
          ("as", True, lambda b, k: [as_(X, add(X, lit(k)))]),
          ("asdas", True, lambda b, k: [as_(X, add(X, lit(k))), das("x", add(X, lit(1))), out(X)]),
          ("dasas", False, lambda b, k: [das("x", lit(k)), as_(X, add(X, lit(1))), out(X)]),
          ("str", False, lambda b, k: [das("x", slit("s%d" % k)), out(S)]),
          ("stronly", False, lambda b, k: [das("x", slit("s%d" % k))]),
          ("arr", False, lambda b, k: [das("x", arr([lit(k), lit(k + 1)])), out(idx(var("x", A1), lit(1)))]),
          ("inner", False, lambda b, k: [das("x", lit(k)), if_([(true(), [das("x", slit("in")), out(S)])]), out(X)]),
          ("inner1", True, lambda b, k: [if_([(true(), [das("x", lit(k))])], [das("x", lit(k + 1))]), out(X)]),
          ("rangex", True, lambda b, k: [range_("x", lit(k), lit(k + 2), [out(X)]), out(X)]),
          ("eachx", True, lambda b, k: [each("x", arr([slit("e"), slit("f")]), [out(S)]), out(X)]),
          ("eachxself", True, lambda b, k: [each("x", arr([X, lit(k)]), [out(X)]), out(X)]),
          ("casex", True, lambda b, k: [match(call("Has", [X, lit(k)], MAY), [("Hasnt", [], []), ("Has", ["x", "y9"], [out(X), as_(X, V("y9")), out(X)])]), out(X)]),
          ("lamx", True, lambda b, k: [das("f9", lam([("x", INT)], INT, body=[as_(X, add(X, lit(k))), ret(X)])), out(call("f9", [X], INT)), out(X)]),
          ("lamcap", True, lambda b, k: [das("f9", lam([], INT, body=[as_(X, add(X, lit(k))), ret(X)])), out(call("f9", [], INT)), out(call("f9", [], INT)), out(X)]),
          ("lamdas", True, lambda b, k: [das("f9", lam([], NOTHING, body=[das("x", lit(k))])), expr(call("f9", [], NOTHING)), out(X)]),
          ("late", False, lambda b, k: [if_([(true(), [das("x", lit(k)), out(X)])]), das("x", lit(k + 50)), out(X)]),
          ("late2", False, lambda b, k: [if_([(false(), [])], [das("x", lit(k))]), das("x", slit("late")), out(S)]),
          ("fn", False, lambda b, k: [das("x", lam([("q", INT)], INT, expr=add(V("q"), lit(k)))), out(call("x", [lit(1)], INT))]),
          ("empty", True, lambda b, k: []),
          ("read", True, lambda b, k: [out(X)])]
    return bs


def scope_matrix(rng, extra=1):
    BK, SB = blocks() + lam_blocks(), scope_bodies()
    OUTER = ["das", "param", "paramlast", "range", "each", "case", "none", "captured", "rec"]
    dims = (len(BK), len(SB), len(BK), len(SB), len(OUTER), 3)
    rows = pairwise(rng, *dims)
    rows += [tuple(rng.randrange(d) for d in dims) for _ in range(extra * len(rows))]

    def probe(b, q):
        bk1, sb1, bk2, sb2, outer, mode = BK[q[0]], SB[q[1]], BK[q[2]], SB[q[3]], OUTER[q[4]], q[5]
        X = V("x")
        if outer == "none" and (sb1[1] or sb2[1]): outer = "das"
        has = outer != "none"
        if mode == 0: ss = bk1[2](b, sb1[2](b, 20)) + bk2[2](b, sb2[2](b, 40))                     # one after the other
        elif mode == 1: ss = bk1[2](b, bk2[2](b, sb2[2](b, 40)) + sb1[2](b, 20))                   # nested, before
        else: ss = bk1[2](b, (sb1[2](b, 20) if sb1[0] in ("empty", "read", "as", "das", "dasout", "self", "selfonly") else []) + bk2[2](b, sb2[2](b, 40)))
        tail = [out(X)] if has else [das("x", lit(77)), out(X)]
        body = ss + tail
        if outer == "range" and any(s.k == "as" for s in walk(body) if s.k == "as" and s.tgt.k == "var" and s.tgt.n == "x"): outer = "each"
        n = b.fresh("sc")
        if outer in ("das", "none"): return ([das("x", lit(3))] if has else []) + body
        if outer == "param":
            b.p.add(Fn(n, [("x", INT)], NOTHING, body))
            return [das("x", lit(4)), expr(call(n, [V("x")], NOTHING)), out(V("x"))]
        if outer == "paramlast":
            b.p.add(Fn(n, [(c, INT) for c in "abcde"] + [("x", INT)], INT, body + [ret(add(V("x"), V("e")))]))
            return [out(call(n, [lit(i) for i in range(6)], INT))]
        if outer == "range": return [range_("x", lit(1), lit(3), body)]
        if outer == "each": return [each("x", arr([lit(1), lit(2)]), body)]
        if outer == "case": return [match(call("Has", [lit(5), lit(6)], MAY), [("Has", ["zz", "x"], body + [out(V("zz"))]), ("Hasnt", [], [])])]
        if outer == "captured": return [das("x", lit(9)), das(n, lam([], NOTHING, body=body)), expr(call(n, [], NOTHING)), expr(call(n, [], NOTHING)), out(V("x"))]
        b.p.add(Fn(n, [("x", INT), ("dd", INT)], NOTHING, [if_([(bin_(">", V("dd"), lit(0)), [expr(call(n, [add(X, lit(1)), bin_("-", V("dd"), lit(1))], NOTHING))])])] + body))
        return [expr(call(n, [lit(1), lit(2)], NOTHING))]
    return batches(rng, True, [lambda b, q=q: probe(b, q) for q in rows])


def trim(ss):
    """statements after a bare return are dropped: the next line would be read as its value"""
    res = []
    for s in ss:
        if s.k == "if": s.pairs, s.els = [(c, trim(x)) for c, x in s.pairs], trim(s.els) if s.els is not None else None
        elif s.k in ("while", "range", "each"): s.body = trim(s.body)
        elif s.k == "match": s.cases = [(c, v, trim(x)) for c, v, x in s.cases]
        res.append(s)
        if s.k == "ret" and s.e is None: break
    return res


def walk(x):
    """all syntax nodes of statements"""
    if isinstance(x, N):
        yield x
        for v in vars(x).values(): yield from walk(v)
    elif isinstance(x, (list, tuple)):
        for v in x: yield from walk(v)


# ---------------------------------------------------------------------------------------------- control flow (C04)
def flow_matrix(rng, extra=1):
    """returns at every place of every pair of nested blocks, from every kind of function; what runs before and after"""
    BK = blocks()
    H = ST("hold", INT)
    KIND = ["nothing", "int", "string", "hold", "bool", "lamint", "lamnothing", "fnval"]
    LEAF = ["ret", "retlast", "retcond", "retcond2", "none", "empty", "lone", "both"]
    dims = (len(BK), len(BK), len(KIND), len(LEAF), 3)
    rows = pairwise(rng, *dims)
    rows += [tuple(rng.randrange(d) for d in dims) for _ in range(extra * len(rows))]
    rt = {"nothing": NOTHING, "lamnothing": NOTHING, "int": INT, "lamint": INT, "string": STRING, "hold": H, "bool": BOOL, "fnval": F0}

    def probe(b, q):
        k1, k2, kind, leaf, mode = BK[q[0]], BK[q[1]], KIND[q[2]], LEAF[q[3]], q[4]
        t = rt[kind]

        def R(v):
            if t == NOTHING: return ret(None)
            return ret({INT: lambda: add(V("a"), lit(v)), STRING: lambda: call("append", [slit("r"), slit(str(v))], STRING), BOOL: lambda: bin_(">", V("a"), lit(v)), H: lambda: call("Hold", [lit(v), V("a")], H),
                        F0: lambda: lam([], INT, expr=add(V("a"), lit(v)))}[t]())
        P = lambda v: out(lit(v))
        inner = {"ret": [P(1), R(10)], "retlast": [R(11)], "retcond": [if_([(bin_("==", V("a"), lit(1)), [R(12)])]), P(2)], "retcond2": [P(3), if_([(bin_("==", V("a"), lit(0)), [P(4)])], [R(13)]), P(5)],
                 "none": [P(6), P(7)], "empty": [], "lone": [P(8)], "both": [if_([(bin_("<", V("a"), lit(1)), [R(14)])], [R(15)])]}[leaf]
        if mode == 0: ss = k1[2](b, [P(20)] + k2[2](b, inner) + [P(21)])
        elif mode == 1: ss = k1[2](b, k2[2](b, inner))
        else: ss = k1[2](b, inner) + [P(22)] + k2[2](b, [P(23)] + [x for x in inner])
        body = trim(ss + [P(30)] + ([R(99)] if t != NOTHING else []))
        n = b.fresh("fl")
        if kind.startswith("lam"):
            pre = [das(n, lam([("a", INT)], t, body=body))]
        else:
            pre = []
            b.p.add(Fn(n, [("a", INT)], t, body))
        res = list(pre)
        for a in (0, 1, 2):
            e = call(n, [lit(a)], t)
            if t == NOTHING: res.append(expr(e))
            elif t == H: res += [das("h%d" % a, e), out(fld(var("h%d" % a, H), "v", INT)), out(fld(var("h%d" % a, H), "n", INT))]
            elif t == F0: res.append(out(dyn(e, [], INT)))
            else: res.append(out(e))
        return res
    return batches(rng, True, [lambda b, q=q: probe(b, q) for q in rows], per_case=8)


def loop_matrix(rng, extra=1):
    """loop bounds, arrays and conditions in every form, loops in every block, bodies with calls, other loops and collections"""
    b0 = Bench(rng)
    IF = [n for n, _ in b0.value_forms(INT)]
    AF = [n for n, _ in b0.value_forms(A1)]
    BF = [n for n, _ in b0.value_forms(BOOL)]
    BK = blocks() + lam_blocks()
    PAIRS = [(0, 3), (0, 1), (0, 0), (2, 2), (3, 1), (5, 0), (1, 0), (0, -1), (-2, 1), (-3, 0), (-1, -1), (7, 9), (2, 4)]
    bodies = [("out", lambda b, n: [out(V(n))]), ("empty", lambda b, n: []), ("call", lambda b, n: [out(call("noise", [V(n)], INT))]), ("das", lambda b, n: [das("d" + n, bin_("*", V(n), lit(2))), out(V("d" + n))]),
              ("sum", lambda b, n: [as_(V("acc"), add(bin_("*", V("acc"), lit(3)), V(n)))]), ("range", lambda b, n: [range_("j" + n, lit(0), lit(2), [out(add(V("j" + n), V(n)))])]),
              ("down", lambda b, n: [range_("j" + n, lit(2), lit(0), [out(add(V("j" + n), V(n)))])]), ("each", lambda b, n: [each("j" + n, arr([V(n), lit(1)]), [out(V("j" + n))])]),
              ("while", lambda b, n: [das("w" + n, lit(0)), while_(bin_("<", V("w" + n), lit(2)), [as_(V("w" + n), add(V("w" + n), lit(1))), out(V(n))])]), ("if", lambda b, n: [if_([(bin_("==", V(n), lit(1)), [out(slit("one"))])], [out(V(n))])]),
              ("lam", lambda b, n: [das("f" + n, lam([], INT, expr=V(n))), out(call("f" + n, [], INT))]), ("match", lambda b, n: [match(call("Has", [V(n), lit(2)], MAY), [("Has", ["m" + n, "mm" + n], [out(V("m" + n))]), ("Hasnt", [], [])])]),
              ("gc", lambda b, n: [das("s" + n, call("append", [slit("g"), slit("c")], STRING)), expr(call("gc", [], NOTHING)), out(V(n)), out(var("s" + n, STRING))]), ("same", lambda b, n: [if_([(true(), [das(n, slit("in")), out(var(n, STRING))])]), out(V(n))]),
              ("rec", lambda b, n: [out(call("tri", [bin_("&", V(n), lit(3))], INT))]), ("arr", lambda b, n: [das("a" + n, arr([V(n), V(n)])), out(idx(var("a" + n, A1), lit(1)))])]
    rows = pairwise(rng, 3 * len(IF), len(IF), len(bodies), len(BK), len(PAIRS))
    rows = [("r",) + q for q in rows]
    rows += [("e",) + q for q in pairwise(rng, len(AF), len(bodies), len(BK), 5)]
    rows += [("w",) + q for q in pairwise(rng, len(BF), len(bodies), len(BK))]
    if extra < 1: rows = [q for q in rows if rng.random() < extra]

    def head(b):
        b.p.add(Fn("tri", [("n", INT)], INT, [das("s", lit(0)), range_("i", lit(0), V("n"), [as_(V("s"), add(V("s"), call("tri", [V("i")], INT)))]), ret(add(V("s"), lit(1)))]))

    def probe(b, q):
        if q[0] == "r":
            n = b.fresh("i")
            lo, hi = PAIRS[q[5]]
            vf = dict(b.value_forms(INT))
            which = q[1] // len(IF)          # vary the start, the end, or both
            f1, f2 = IF[q[1] % len(IF)], IF[q[2]]
            p1, e1 = vf[f1](lit(lo)) if which != 1 else ([], lit(lo))
            p2, e2 = vf[f2](lit(hi)) if which != 0 else ([], lit(hi))
            loop = p1 + p2 + [range_(n, e1, e2, bodies[q[3]][1](b, n))]
            if bodies[q[3]][0] == "empty": loop = p1 + p2 + [range_(n, e1, e2, []), out(slit("done"))]
            ss = loop
        elif q[0] == "e":
            n = b.fresh("x")
            p1, a = dict(b.value_forms(A1))[AF[q[1]]](var("base", A1))
            k = q[4]
            base = arr([lit(v) for v in (5, 1, 0, 2, 7)[:k]]) if k else call("array", [lit(0), lit(0)], A1)
            # idB etc. on a length-0 array are fine; forms that read elements of base are not used here
            ss = [das("base", base)] + p1 + [each(n, a, bodies[q[2]][1](b, n))]
            return [das("acc", lit(0))] + BK[q[3]][2](b, ss) + [out(V("acc"))]
        else:
            n = b.fresh("w")
            cnt = V(n)
            p1, c = dict(b.value_forms(BOOL))[BF[q[1]]](bin_("<", cnt, lit(3)))
            if any(s.k == "das" for s in p1):       # the form needs its variables made anew for every test
                b.p.add(Fn("cn" + n, [(n, INT)], BOOL, p1 + [ret(c)]))
                c = call("cn" + n, [cnt], BOOL)
            ss = [das(n, lit(0)), while_(c, [as_(cnt, add(cnt, lit(1)))] + bodies[q[2]][1](b, n))]
            return [das("acc", lit(0))] + BK[q[3]][2](b, ss) + [out(V("acc"))]
        return [das("acc", lit(0))] + BK[q[4]][2](b, ss) + [out(V("acc"))]
    return batches(rng, True, [lambda b, q=q: probe(b, q) for q in rows], head=head)


# ---------------------------------------------------------------------------------------------- captured variables (C06)
CAPT = [INT, STRING, BOOL, A1, ST("hold", INT), MAY, FN([INT], INT)]


def capture_matrix(rng, extra=1):
    """what is captured (where the variable comes from, its type, how many others) x shape of the function value x how it travels x
    when the variable is assigned"""
    SRC = ["local", "param", "param6", "range", "each", "case", "captured", "captured2", "lamparam", "inif", "afterif", "shadow"]
    TY = list(range(len(CAPT)))
    SHAPE = ["expr", "block", "blockif", "nested", "nestedexpr", "nested3", "loop", "arg", "second", "ret2"]
    TRAVEL = ["var", "direct", "arg", "arg2", "ret", "array", "struct", "enum", "tern", "capt", "dotarg", "retfld", "reassign", "loopcall"]
    WHEN = ["never", "before", "after", "between", "inside", "both"]
    EXTRA = [0, 1, 2, 3, 4]
    POS = [0, 1]
    dims = (len(SRC), len(TY), len(SHAPE), len(TRAVEL), len(WHEN), len(EXTRA), 2)
    rows = pairwise(rng, *dims)
    rows += [tuple(rng.randrange(d) for d in dims) for _ in range(extra * len(rows))]

    def head(b):
        for i, t in enumerate(CAPT):
            ft = FN([INT], t)
            b.p.add(Struct("trav%d" % i, [("n", INT), ("f", ft)]))
            b.p.add(Enum("trve%d" % i, [("Tn%d" % i, []), ("Tf%d" % i, [("n", INT), ("f", ft)])]))
            b.p.add(Fn("use%d" % i, [("f", ft)], t, [ret(call("f", [lit(7)], t))]))
            b.p.add(Fn("useb%d" % i, [("a", INT), ("f", ft), ("c", INT)], t, [das("z", add(V("a"), V("c"))), das("r", call("f", [V("z")], t)), ret(var("r", t))]))
            b.p.add(Fn("give%d" % i, [("f", ft)], ft, expr=var("f", ft)))
            b.p.add(Fn("box%d" % i, [("f", ft)], ST("trav%d" % i), expr=call("Trav%d" % i, [lit(3), var("f", ft)], ST("trav%d" % i))))

    def val(t, k):
        if t == INT: return lit(k)
        if t == STRING: return call("append", [slit("v"), slit(str(k))], STRING)
        if t == BOOL: return blit(k % 2)
        if t == A1: return arr([lit(k), lit(k + 1)])
        if t == MAY: return call("Has", [lit(k), lit(k + 2)], MAY)
        if t[0] == "fn": return lam([("q%d" % k, INT)], INT, expr=bin_("-", bin_("*", V("q%d" % k), lit(3)), lit(k)))
        return call("Hold", [lit(k), lit(k + 3)], t)

    def show(b, e, t):
        if t[0] == "fn": return [out(dyn(e, [lit(5)], INT))] if e.k != "var" else [out(call(e.n, [lit(5)], INT))]
        return b.show(e, t)

    def probe(b, q):
        src, ti, shape, trav, when, nex, pos = SRC[q[0]], q[1], SHAPE[q[2]], TRAVEL[q[3]], WHEN[q[4]], EXTRA[q[5]], q[6]
        t = CAPT[ti]
        ft = FN([INT], t)
        C = var("c", t)
        ex = ["g%d" % i for i in range(nex)]
        exd = [das(n, lit(100 + i)) for i, n in enumerate(ex)]
        exr = [out(V(n)) for n in ex]
        k = b.fresh("fz")
        asn = lambda v: as_(C, val(t, v))
        ins = [asn(60)] if when in ("inside", "both") else []
        sel = lambda body: lam([("p", INT)], t, body=body)
        cc = lambda: var("c", t)
        if shape == "expr": f = lam([("p", INT)], t, expr=cc()) if not ins and not ex else sel(exr + ins + [ret(cc())])
        elif shape == "block": f = sel(exr + ins + [das("l", cc()), ret(var("l", t))])
        elif shape == "blockif": f = sel([if_([(bin_(">", V("p"), lit(0)), exr + ins + [ret(cc())])])] + [out(slit("neg")), ret(cc())])
        elif shape == "nested": f = sel(exr + [das("in1", lam([], t, body=ins + [ret(cc())])), out(V("p")), ret(call("in1", [], t))])
        elif shape == "nestedexpr": f = sel(ins + [ret(dyn(lam([("r", INT)], t, body=exr + [out(V("p")), out(V("r")), ret(cc())]), [lit(4)], t))])
        elif shape == "nested3": f = sel([das("in1", lam([], FN([], t), body=[das("u", V("p")), ret(lam([], t, body=exr + ins + [out(V("u")), ret(cc())]))])), ret(dyn(call("in1", [], FN([], t)), [], t))])
        elif shape == "loop": f = sel([range_("zi", lit(0), lit(2), exr + ins + [out(V("zi"))]), each("ze", arr([V("p")]), [ret(cc())]), ret(cc())])
        elif shape == "arg": f = sel(exr + ins + [ret(call("idB", [cc()], t))])
        elif shape == "second": f = sel(exr + ins + [ret(call("second", [V("p"), cc()], t))])
        else: f = sel(exr + [das("h", call("Hold", [cc(), V("p")], ST("hold", t)))] + ins + [out(fld(var("h", ST("hold", t)), "n", INT)), ret(fld(var("h", ST("hold", t)), "v", t))])
        # how it travels
        F = var(k, ft)
        A = lambda v: [lit(v)]
        between = [asn(50)] if when in ("after", "both") else []
        sx = lambda e: show(b, e, t)
        if trav == "direct" and between: trav = "var"
        if trav == "var": use = [das(k, f)] + between + sx(call(k, A(1), t)) + sx(call(k, A(2), t))
        elif trav == "direct":
            f2 = f if f.body is not None else sel([ret(cc())])
            use = sx(dyn(f2, A(3), t))
        elif trav == "arg": use = sx(call("use%d" % ti, [f], t)) + between
        elif trav == "arg2": use = [das(k, f)] + between + sx(call("useb%d" % ti, [lit(1), F, lit(2)], t)) + sx(call("use%d" % ti, [F], t))
        elif trav == "ret": use = [das(k, call("give%d" % ti, [f], ft))] + between + sx(call(k, A(4), t))
        elif trav == "array": use = [das(k, arr([f, f]))] + between + sx(dyn(idx(var(k, ARR(ft)), lit(1)), A(5), t)) + sx(dyn(idx(var(k, ARR(ft)), lit(0)), A(6), t)) + sx(dyn(idx(var(k, ARR(ft)), lit(1)), A(7), t))
        elif trav == "struct": use = [das(k, call("Trav%d" % ti, [lit(2), f], ST("trav%d" % ti)))] + between + sx(dot(var(k, ST("trav%d" % ti)), "f", A(8), t))
        elif trav == "enum": use = [das(k, call("Tf%d" % ti, [lit(2), f], EN("trve%d" % ti)))] + between + [match(var(k, EN("trve%d" % ti)), [("Tn%d" % ti, [], []), ("Tf%d" % ti, ["en", "ef"], [out(V("en"))] + sx(call("ef", A(9), t)))])]
        elif trav == "tern": use = [das(k, tern(bin_("==", lit(1), lit(2)), f, lam([("p", INT)], t, body=[out(slit("other")), ret(cc())])))] + between + sx(call(k, A(1), t))
        elif trav == "capt": use = [das(k, f), das(k + "w", lam([], t, body=[out(slit("w")), ret(call(k, A(2), t))]))] + between + sx(call(k + "w", [], t)) + sx(call(k, A(3), t))
        elif trav == "dotarg": use = [das(k, f)] + between + sx(dot(lit(1), "useb%d" % ti, [F, lit(4)], t))
        elif trav == "retfld": use = [das(k, fld(call("box%d" % ti, [f], ST("trav%d" % ti)), "f", ft))] + between + sx(call(k, A(5), t))
        elif trav == "reassign": use = [das(k, lam([("p", INT)], t, expr=cc())), as_(F, f)] + between + sx(call(k, A(6), t))
        else: use = [das(k, f)] + between + [range_("li", lit(0), lit(2), sx(call(k, [V("li")], t)) + [out(V("li"))])]
        if when == "between": use = [asn(55)] + use
        tail = sx(cc()) + [out(V(n)) for n in ex]
        pre = [asn(45)] if when == "before" else []
        body = (exd + pre if pos else pre + exd) + use + tail
        n = b.fresh("cs")
        isfn = t[0] == "fn"
        D = [das("c", val(t, 40))]
        if src == "local": return D + body if pos else exd + D + pre + use + tail
        if src == "param": b.p.add(Fn(n, [("c", t)], NOTHING, body)); return [expr(call(n, [val(t, 41)], NOTHING))]
        if src == "param6": b.p.add(Fn(n, [("a%d" % i, INT) for i in range(5)] + [("c", t)], NOTHING, body + [out(V("a4"))])); return [expr(call(n, [lit(i) for i in range(5)] + [val(t, 42)], NOTHING))]
        if src == "range":
            if t != INT or any(s.k == "as" and s.tgt.k == "var" and s.tgt.n == "c" for s in walk(body)): return [each("c", arr([val(t, 43)]), body)]
            return [range_("c", lit(2), lit(4), body)]
        if src == "each": return [each("c", arr([val(t, 43), val(t, 44)]), body)]
        if src == "case": return [match(call("Has", [lit(1), val(t, 44)], EN("may", t)), [("Hasnt", [], []), ("Has", ["zq", "c"], body + [out(V("zq"))])])]
        if src == "captured": return D + [das(n, lam([], NOTHING, body=body)), expr(call(n, [], NOTHING))] + tail[:len(sx(cc()))]
        if src == "captured2": return D + [das(n, lam([], FN([], NOTHING), body=[das("o9", lit(1)), ret(lam([], NOTHING, body=body + [out(V("o9"))]))])), expr(dyn(call(n, [], FN([], NOTHING)), [], NOTHING))] + sx(cc())
        if src == "lamparam": return [das(n, lam([("a1", INT), ("c", t)], NOTHING, body=body + [out(V("a1"))])), expr(call(n, [lit(8), val(t, 46)], NOTHING))]
        if src == "inif": return [if_([(true(), D + body)])]
        if src == "afterif": return [if_([(true(), [das("c", slit("first")), out(var("c", STRING))])])] + D + body
        return [das("c", slit("outer")), if_([(true(), D + body)], []), out(var("c", STRING))]
    return batches(rng, True, [lambda b, q=q: probe(b, q) for q in rows], head=head, per_case=8)


# ---------------------------------------------------------------------------------------------- records (C08)
FT = [INT, STRING, BOOL, A1, FN([INT], INT), ST("hold", INT), MAY, ARR(STRING), BYTES]


def record_matrix(rng, extra=1):
    """structs of 1..6 fields (the constructor takes at most six values), each field of each type, read and written through every kind of expression,
    plain and generic; after a write every field is shown: no other one changed"""
    READ = ["fld", "tmp", "param", "elem", "alias", "captured", "ternary", "nested", "casefld", "fnret", "each", "dot"]
    WRITE = ["none", "fld", "alias", "elem", "param", "captured", "fnret", "self", "nested", "twice", "each", "loop"]
    NF = [1, 2, 3, 4, 5, 6]
    dims = (len(FT), 6, 6, len(READ), len(WRITE), 3)
    rows = pairwise(rng, *dims)
    rows += [tuple(rng.randrange(d) for d in dims) for _ in range(extra * len(rows))]

    def val(b, t, k):
        if t == INT: return lit(k)
        if t == STRING: return call("append", [slit("v"), slit(str(k))], STRING)
        if t == BOOL: return blit(k % 2)
        if t == A1: return arr([lit(k), lit(k + 1)])
        if t == ARR(STRING): return arr([slit("e%d" % k)])
        if t == MAY: return call("Has", [lit(k), lit(k + 2)], MAY)
        if t == BYTES: return call("mkb", [lit(k)], BYTES)
        if t[0] == "fn": return lam([("q", INT)], INT, expr=bin_("-", V("q"), lit(k)))
        return call("Hold", [lit(k), lit(k + 3)], t)

    def show(b, e, t):
        if t[0] == "fn":
            n = b.fresh("sf")
            return [das(n, e), out(call(n, [lit(5)], INT))]
        return b.show(e, t)

    def head(b):
        b.p.add(Fn("mkb", [("n", INT)], BYTES, [das("r", call("Bytes", [lit(3)], BYTES)), expr(dot(var("r", BYTES), "set", [lit(0), V("n")], NOTHING)), ret(var("r", BYTES))]))

    def probe(b, q):
        t, nf, j, rd, wr, gen = FT[q[0]], NF[q[1]], q[2], READ[q[3]], WRITE[q[4]], q[5]
        j = j % nf
        n = b.fresh("rec")
        types = [rng.choice(FT) for _ in range(nf)]
        types[j] = t
        names = ["m%d" % i for i in range(nf)]
        pars = ()
        decl = list(types)
        if gen:
            # generic in the type of the field, or in the type of another field
            g = j if gen == 1 else rng.randrange(nf)
            pars = (types[g],)
            decl = [PAR("G") if i == g else types[i] for i in range(nf)]
        b.p.add(Struct(n, list(zip(names, decl)), ("G",) if gen else ()))
        S = ST(n, *pars)
        C = n[0].upper() + n[1:]
        mk = lambda k: call(C, [val(b, types[i], k + i) for i in range(nf)], S)
        F = names[j]
        o = var("o", S)
        ss = [das("o", mk(10)), das("p", mk(30))]

        def showall(v):
            r = []
            for i in range(nf): r += show(b, fld(v, names[i], types[i]), types[i])
            return r
        nv = lambda: val(b, t, 77)
        tgt = lambda e: fld(e, F, t)
        if wr in ("param", "fnret"):
            b.p.add(Fn("w" + n, [("o", S), ("v", t)], S, [as_(tgt(o), var("v", t)), ret(o)] if wr == "param" else [ret(o)]))
        if wr == "fld": ss += [as_(tgt(o), nv())]
        elif wr == "alias": ss += [das("al", o), as_(tgt(var("al", S)), nv())]
        elif wr == "elem": ss += [das("xs", arr([var("p", S), o])), as_(tgt(idx(var("xs", ARR(S)), lit(1))), nv())]
        elif wr == "param": ss += [expr(call("w" + n, [o, nv()], S))]
        elif wr == "captured": ss += [das("wf", lam([], NOTHING, body=[das("oo", o), as_(tgt(var("oo", S)), nv())])), expr(call("wf", [], NOTHING))]
        elif wr == "fnret": ss += [as_(tgt(call("w" + n, [o, nv()], S)), nv())]
        elif wr == "self": ss += [as_(tgt(o), tgt(var("p", S)))]
        elif wr == "nested": ss += [das("ho", call("Hold", [o, lit(1)], ST("hold", S))), as_(tgt(fld(var("ho", ST("hold", S)), "v", S)), nv())]
        elif wr == "twice": ss += [as_(tgt(o), val(b, t, 66)), as_(tgt(o), nv())]
        elif wr == "each": ss += [each("eo", arr([o]), [as_(tgt(var("eo", S)), nv())])]
        elif wr == "loop": ss += [range_("wi", lit(0), lit(2), [as_(tgt(o), val(b, t, 55)), as_(tgt(var("p", S)), tgt(o))])]
        x = lambda e: show(b, tgt(e), t)
        if rd == "fld": ss += x(o)
        elif rd == "tmp": ss += show(b, tgt(mk(50)), t)
        elif rd == "param": b.p.add(Fn("r" + n, [("a", INT), ("o", S)], t, [das("zz", V("a")), ret(tgt(o))])); ss += show(b, call("r" + n, [lit(1), o], t), t)
        elif rd == "elem": ss += [das("ys", arr([o, var("p", S)]))] + x(idx(var("ys", ARR(S)), lit(0)))
        elif rd == "alias": ss += [das("ra", o)] + x(var("ra", S))
        elif rd == "captured": ss += [das("rf", lam([], t, expr=tgt(o)))] + show(b, call("rf", [], t), t)
        elif rd == "ternary": ss += show(b, tern(bin_("<", lit(2), lit(1)), tgt(var("p", S)), tgt(o)), t)
        elif rd == "nested": ss += [das("hr", call("Wrap", [lit(1), call("Hold", [o, lit(1)], ST("hold", S))], ST("wrap", S)))] + x(fld(fld(var("hr", ST("wrap", S)), "h", ST("hold", S)), "v", S))
        elif rd == "casefld": ss += [match(call("Has", [lit(1), o], EN("may", S)), [("Has", ["zq", "co"], x(var("co", S)) + [out(V("zq"))]), ("Hasnt", [], [])])]
        elif rd == "fnret": b.p.add(Fn("r" + n, [("o", S)], S, expr=o)); ss += x(call("r" + n, [o], S))
        elif rd == "each": ss += [each("ro", arr([o, var("p", S)]), x(var("ro", S)))]
        else: b.p.add(Fn("r" + n, [("o", S)], t, expr=tgt(o))); ss += show(b, dot(o, "r" + n, [], t), t)
        return ss + showall(o) + showall(var("p", S))
    return batches(rng, True, [lambda b, q=q: probe(b, q) for q in rows], head=head, per_case=8, per_file=10)


# ---------------------------------------------------------------------------------------------- matches (C09)
def match_matrix(rng, extra=1):
    """enums of 1..9 cases; the value's case, the order of the cases, the number and type of parameters, where the value comes from, which block
    the match is in, what the arms do"""
    N_ = [1, 2, 3, 4, 5, 6, 7, 9]
    ORDER = ["decl", "rev", "rot", "shuffle", "swap"]
    PAR_ = [0, 1, 2, 3, 4, 5]
    b0 = Bench(rng)
    VF = [n for n, _ in b0.value_forms(EN("zz"))]
    BK = blocks() + lam_blocks()
    ARM = ["show", "ret", "retsome", "empty", "single", "das", "assign", "nested", "reuse", "loop"]
    dims = (len(N_), 9, len(ORDER), len(PAR_), len(VF), len(BK), len(ARM), 2)
    rows = pairwise(rng, *dims)
    rows += [tuple(rng.randrange(d) for d in dims) for _ in range(extra * len(rows))]
    PT = [INT, STRING, BOOL, A1, ST("hold", INT), MAY]

    def val(t, k):
        if t == INT: return lit(k)
        if t == STRING: return call("append", [slit("v"), slit(str(k))], STRING)
        if t == BOOL: return blit(k % 2)
        if t == A1: return arr([lit(k), lit(k + 1)])
        if t == MAY: return call("Has", [lit(k), lit(k + 2)], MAY)
        return call("Hold", [lit(k), lit(k + 3)], t)

    def probe(b, q):
        n, w, order, npar, vf, bk, arm, gen = N_[q[0]], q[1], ORDER[q[2]], PAR_[q[3]], VF[q[4]], BK[q[5]], ARM[q[6]], q[7]
        w = w % n
        nm = b.fresh("en")
        U = nm.upper()
        cases = []
        for i in range(n):
            k = npar if i == w else rng.choice([0, 0, 1, 2, 3])
            cases.append(("%s%s" % (U, "abcdefghi"[i]), [("p%d" % j, rng.choice(PT)) for j in range(k)]))
        pars, decl = (), cases
        if gen and npar:
            j0 = rng.randrange(npar)
            gt = cases[w][1][j0][1]
            pars = (gt,)
            decl = [(c, [(p, PAR("G") if (i == w and j == j0) else t) for j, (p, t) in enumerate(ps)]) for i, (c, ps) in enumerate(cases)]
        b.p.add(Enum(nm, decl, ("G",) if pars else ()))
        E = EN(nm, *pars)
        mk = lambda i, k: call(cases[i][0], [val(t, k + j) for j, (_, t) in enumerate(cases[i][1])], E, pars)
        idxs = list(range(n))
        if order == "rev": idxs.reverse()
        elif order == "rot": idxs = idxs[1:] + idxs[:1]
        elif order == "shuffle": rng.shuffle(idxs)
        elif order == "swap" and n > 1: idxs[0], idxs[-1] = idxs[-1], idxs[0]

        def arms(e, depth=0):
            cs = []
            for i in idxs:
                c, ps = cases[i]
                vs = ["y%d%s" % (j, "z" * depth) for j in range(len(ps))]
                if arm == "reuse": vs = ["v%d" % (j % 9) for j in range(len(ps))]
                body = [out(slit(c))]
                for v, (_, t) in zip(vs, ps): body += b.show(var(v, t), t)
                if arm in ("ret", "retsome"):
                    if arm == "ret" or i % 2 == 0: body.append(ret(lit(500 + i)))
                elif arm == "empty" and i != w: body = []
                elif arm == "single": body = [as_(V("acc"), add(V("acc"), lit(7 + i)))]
                elif arm == "das": body = body[1:] + [das("loc", lit(600 + i))]
                elif arm == "assign": body += [as_(V("acc"), lit(700 + i))] + [s for v, (_, t) in zip(vs, ps) for s in [as_(var(v, t), val(t, 90))] + b.show(var(v, t), t)]
                elif arm == "nested" and depth == 0: body += [arms(mk(w, 40), 1)]
                elif arm == "reuse": body += [das("loc", lit(3)), if_([(true(), [das("v0", lit(4)), out(V("v0"))])])]
                elif arm == "loop": body += [range_("mi", lit(0), lit(2), [s for v, (_, t) in zip(vs, ps) for s in b.show(var(v, t), t)] or [out(V("mi"))])]
                cs.append((c, vs, body))
            return match(e, cs)
        ff = b.fresh("mt")
        # one function that matches its parameter: called with every case
        b.p.add(Fn(ff, [("s", E)], INT, [das("acc", lit(0)), arms(var("s", E)), out(slit("after"))][:2 if arm == "ret" and False else 3] + [ret(V("acc"))] if arm != "ret" else [das("acc", lit(0)), arms(var("s", E))]))
        ss = []
        for i in range(n): ss.append(out(call(ff, [mk(i, 10)], INT)))
        # a match in a block, on a value that comes in some form
        pre, e = dict(b.value_forms(E))[vf](mk(w, 20))
        save = arm
        if arm in ("ret", "retsome"):
            f2 = b.fresh("mt")
            b.p.add(Fn(f2, [], INT, [das("acc", lit(0))] + [s for s in BLK(b, bk, pre + [arms(e)])] + [ret(V("acc"))]))
            return ss + [out(call(f2, [], INT))]
        return ss + [das("acc", lit(0))] + bk[2](b, pre + [arms(e)]) + [out(V("acc"))]

    def BLK(b, bk, s):
        if bk[0].startswith("lam"): bk = blocks()[0]
        return bk[2](b, s)
    return batches(rng, True, [lambda b, q=q: probe(b, q) for q in rows], per_case=6, per_file=10)
