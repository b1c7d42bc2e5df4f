"""Systematic syntactic forms: how a value can be written (value forms), where an expression can stand (contexts), how state can
be read and changed (readers, writers).  Checks combine them pairwise so that no combination is left to chance."""
import itertools
from clara import *
from gen import *

T = PAR("T")
TF = ST


def V(n): return var(n, INT)


class Bench:
    """a program with the generic helpers the forms use"""

    def __init__(self, rng, ext=True):
        self.r = rng
        self.p = Prog()
        self.n = 0
        self.entries = []
        p = self.p
        self.ext = [Fn("vid", [("x", INT)], INT, extern=True, attr="RawValues")] if ext else []
        p.add(Struct("hold", [("v", T), ("n", INT)], ("T",)))
        p.add(Struct("wrap", [("pad", INT), ("h", ST("hold", T))], ("T",)))
        p.add(Struct("fbox", [("pad", INT), ("f", FN([T], T))], ("T",)))
        p.add(Enum("may", [("Hasnt", []), ("Has", [("pad", INT), ("v", T)])], ("T",)))
        p.add(Fn("idT", [("x", T)], T, expr=var("x", T), tparams=("T",)))
        p.add(Fn("idB", [("x", T)], T, [das("y", var("x", T)), ret(var("y", T))], tparams=("T",)))
        p.add(Fn("sixth", [("a", INT), ("b", INT), ("c", INT), ("d", INT), ("e", INT), ("x", T)], T, [ret(var("x", T))], tparams=("T",)))
        p.add(Fn("second", [("a", INT), ("x", T)], T, [if_([(bin_("<", V("a"), lit(0)), [ret(var("x", T))])]), ret(var("x", T))], tparams=("T",)))
        p.add(Fn("first", [("x", T), ("a", INT)], T, [ret(var("x", T))], tparams=("T",)))
        p.add(Fn("twice", [("f", FN([T], T)), ("x", T)], T, expr=call("f", [call("f", [var("x", T)], T)], T), tparams=("T",)))
        p.add(Fn("tick", [("k", INT)], INT, [out(slit("t")), ret(V("k"))]))
        p.add(Fn("tickT", [("k", INT), ("x", T)], T, [out(V("k")), ret(var("x", T))], tparams=("T",)))
        p.add(Fn("bump", [("c", ARR(INT))], INT, [as_(idx(var("c", ARR(INT)), lit(0)), bin_("+", idx(var("c", ARR(INT)), lit(0)), lit(1))), ret(bin_("-", idx(var("c", ARR(INT)), lit(0)), lit(1)))]))
        p.add(Fn("noise", [("n", INT)], INT, [das("a", bin_("*", V("n"), lit(3))), das("b", bin_("/", V("a"), lit(2))), das("c", arr([V("a"), V("b")])), ret(bin_("+", idx(var("c", ARR(INT)), lit(0)), bin_("<<", V("b"), lit(2))))]))
        p.add(Fn("six", [(c, INT) for c in "abcdef"], INT, expr=_horner("abcdef")))
        p.add(Fn("three", [(c, INT) for c in "abc"], INT, expr=_horner("abc")))
        for k in (2, 3, 4, 5, 6):
            p.add(Fn("show%d" % k, [("abcdef"[j], INT) for j in range(k)], NOTHING, [out(V("abcdef"[j])) for j in range(k)]))

    def fresh(self, b="v"):
        self.n += 1
        return "%s%d" % (b, self.n)

    def case(self, body, name=None):
        name = name or "case%d" % len(self.entries)
        self.p.add(Fn(name, [], NOTHING, body))
        self.entries.append(name)

    def file(self, **kw):
        from core import File
        return File(self.p, self.entries, externs=self.ext, **kw)

    # ---------------------------------------------------------------------------------------- value forms
    def value_forms(self, t):
        """[(name, fn(e) -> (prelude, expression))]: ways to have the value of e"""
        b = self

        def v(f):
            def g(e):
                n = b.fresh()
                return f(n, e)
            return g
        X = lambda n: var(n, t)
        H, W = ST("hold", t), ST("wrap", t)
        fs = [("direct", lambda e: ([], e)),
              ("var", v(lambda n, e: ([das(n, e)], X(n)))),
              ("reassigned", v(lambda n, e: ([das(n, e), as_(X(n), call("idT", [X(n)], t))], X(n)))),
              ("fnexpr", lambda e: ([], call("idT", [e], t))),
              ("fnblock", lambda e: ([], call("idB", [e], t))),
              ("sixth", lambda e: ([], call("sixth", [lit(1), lit(2), lit(3), call("noise", [lit(4)], INT), lit(5), e], t))),
              ("dotcall", lambda e: ([], dot(e, "idB", [], t))),
              ("field", v(lambda n, e: ([das(n, call("Hold", [e, lit(3)], H))], fld(var(n, H), "v", t)))),
              ("tmpfield", lambda e: ([], fld(call("Hold", [e, lit(4)], H), "v", t))),
              ("field2", v(lambda n, e: ([das(n, call("Wrap", [lit(1), call("Hold", [e, lit(2)], H)], W))], fld(fld(var(n, W), "h", H), "v", t)))),
              ("setfield", v(lambda n, e: ([das(n, call("Hold", [e, lit(3)], H)), as_(fld(var(n, H), "v", t), call("idT", [fld(var(n, H), "v", t)], t))], fld(var(n, H), "v", t)))),
              ("elemlit", lambda e: ([], idx(arr([e]), lit(0)))),
              ("elem", v(lambda n, e: ([das(n, arr([e, e, e]))], idx(var(n, ARR(t)), lit(2))))),
              ("elemvar", v(lambda n, e: ([das(n, arr([e, e])), das(n + "i", lit(1))], idx(var(n, ARR(t)), V(n + "i"))))),
              ("elem2", v(lambda n, e: ([das(n, arr([arr([e])]))], idx(idx(var(n, ARR(ARR(t))), lit(0)), lit(0))))),
              ("then", lambda e: ([], tern(true(), e, call("idT", [e], t)))),
              ("else", v(lambda n, e: ([das(n, lit(1))], tern(bin_("<", V(n), lit(1)), call("idT", [e], t), e)))),
              ("captured", v(lambda n, e: ([das(n, e), das(n + "f", lam([], t, expr=X(n)))], call(n + "f", [], t)))),
              ("captured2", v(lambda n, e: ([das(n, e), das(n + "f", lam([], FN([], t), body=[ret(lam([], t, body=[ret(X(n))]))]))], dyn(call(n + "f", [], FN([], t)), [], t)))),
              ("lamcall", v(lambda n, e: ([], dyn(lam([(n, t)], t, body=[ret(X(n))]), [e], t)))),
              ("lamvar", v(lambda n, e: ([das(n, lam([(n + "q", t)], t, expr=X(n + "q")))], call(n, [e], t)))),
              ("fnfield", v(lambda n, e: ([das(n, call("Fbox", [lit(1), lam([(n + "q", t)], t, expr=X(n + "q"))], ST("fbox", t)))], dot(var(n, ST("fbox", t)), "f", [e], t)))),
              ("fnelem", v(lambda n, e: ([das(n, arr([lam([(n + "q", t)], t, expr=X(n + "q"))]))], dyn(idx(var(n, ARR(FN([t], t))), lit(0)), [e], t)))),
              ("hof", v(lambda n, e: ([], call("twice", [lam([(n + "q", t)], t, expr=X(n + "q")), e], t)))),
              # forms that show when, in which order and how often they are evaluated
              ("tcall", lambda e: ([], call("tickT", [lit(1), e], t))),
              ("telem", v(lambda n, e: ([das(n, arr([e, e]))], idx(var(n, ARR(t)), call("tick", [lit(1)], INT))))),
              ("telem2", lambda e: ([], idx(call("tickT", [lit(2), arr([e])], ARR(t)), call("tick", [lit(0)], INT)))),
              ("tbump", v(lambda n, e: ([das(n, arr([e, e, e, e, e, e])), das(n + "c", arr([lit(0)]))], idx(var(n, ARR(t)), bin_("-", lit(5), bin_("&", call("bump", [var(n + "c", ARR(INT))], INT), lit(3))))))),
              ("tfield", lambda e: ([], fld(call("tickT", [lit(3), call("Hold", [e, call("tick", [lit(4)], INT)], H)], H), "v", t))),
              ("ttern", lambda e: ([], tern(call("tickT", [lit(5), true()], BOOL), call("tickT", [lit(6), e], t), call("tickT", [lit(7), e], t)))),
              ("tdyn", v(lambda n, e: ([], dyn(call("tickT", [lit(8), lam([(n + "q", t)], t, body=[out(slit("l")), ret(X(n + "q"))])], FN([t], t)), [call("tickT", [lit(9), e], t)], t)))),
              ("tdot", lambda e: ([], dot(call("tick", [lit(1)], INT), "tickT", [call("tickT", [lit(2), e], t)], t)))]
        if t == INT:
            fs += [("add0", lambda e: ([], bin_("+", e, lit(0)))), ("radd", lambda e: ([], bin_("+", lit(0), e))),
                   ("sub", lambda e: ([], bin_("-", bin_("+", e, lit(5)), lit(5)))), ("rsub", lambda e: ([], bin_("-", lit(0), bin_("-", lit(0), e)))),
                   ("neg", lambda e: ([], un("-", un("-", e)))), ("negv", v(lambda n, e: ([das(n, un("-", e))], un("-", V(n))))),
                   ("not", lambda e: ([], un("~", un("~", e)))), ("notv", v(lambda n, e: ([das(n, un("~", e))], un("~", V(n))))),
                   ("mul", lambda e: ([], bin_("*", e, lit(1)))), ("rmul", lambda e: ([], bin_("*", lit(1), e))), ("mulneg", lambda e: ([], bin_("*", un("-", e), lit(-1)))),
                   ("div", lambda e: ([], bin_("/", e, lit(1)))), ("divv", v(lambda n, e: ([das(n, lit(1))], bin_("/", e, V(n))))),
                   ("or", lambda e: ([], bin_("|", e, lit(0)))), ("and", lambda e: ([], bin_("&", e, lit(-1)))), ("xor", lambda e: ([], bin_("^", e, lit(0)))),
                   ("shl", lambda e: ([], bin_("<<", e, lit(0)))), ("shr", lambda e: ([], bin_(">>", e, lit(0)))), ("shv", v(lambda n, e: ([das(n, lit(0))], bin_(">>", e, V(n))))),
                   ("callsum", lambda e: ([], bin_("-", bin_("+", call("noise", [lit(7)], INT), e), call("noise", [lit(7)], INT)))),
                   ("ext", lambda e: ([], call("vid", [e], INT))),
                   ("len", v(lambda n, e: ([das(n, call("array", [bin_("&", e, lit(7)), lit(1)], ARR(INT)))], bin_("+", bin_("-", e, bin_("&", e, lit(7))), fld(var(n, ARR(INT)), "length", INT)))))]
        if t == BOOL:
            fs += [("notnot", lambda e: ([], un("not", un("not", e)))), ("notv", v(lambda n, e: ([das(n, un("not", e))], un("not", var(n, BOOL))))),
                   ("andt", lambda e: ([], bin_("and", e, true()))), ("tand", lambda e: ([], bin_("and", true(), e))),
                   ("orf", lambda e: ([], bin_("or", e, false()))), ("for", lambda e: ([], bin_("or", false(), e))),
                   ("demorgan", lambda e: ([], un("not", bin_("or", un("not", e), un("not", e))))), ("tern", lambda e: ([], tern(e, true(), false()))),
                   ("cmp", lambda e: ([], bin_("==", tern(e, lit(1), lit(0)), lit(1))))]
        if t == STRING:
            fs += [("append", lambda e: ([], call("append", [e, slit("")], STRING))), ("rappend", lambda e: ([], dot(slit(""), "append", [e], STRING)))]
        return fs

    # ---------------------------------------------------------------------------------------- contexts
    def show(self, e, t):
        if t in (INT, BOOL, STRING): return [out(e)]
        if t[0] == "arr":
            n = self.fresh("el")
            return [each(n, e, self.show(var(n, t[1]), t[1]))]
        if t[0] == "st" and t[1] == "hold" and t[2] != (INT,):
            n = self.fresh("hv")
            return [das(n, e)] + self.show(fld(var(n, t), "v", t[2][0]), t[2][0]) + [out(fld(var(n, t), "n", INT))]
        if t[0] == "st": return [out(fld(e, "n", INT))]
        if t[0] == "en" and t[1] == "may":
            n = self.fresh("mv")
            return [match(e, [("Hasnt", [], [out(slit("hasnt"))]), ("Has", [n, n + "x"], [out(V(n))] + self.show(var(n + "x", t[2][0]), t[2][0]))])]
        if t == BYTES: return [out(dot(e, "get", [lit(0)], INT))]
        if t[0] == "fn" and not t[1]:
            n = self.fresh("fv")
            return [das(n, e)] + self.show(call(n, [], t[2]), t[2])
        raise Exception(t)

    def contexts(self, t, cap=True):
        """[(name, fn(prelude, e) -> statements)]: places an expression of type t can stand; each prints its value.
        cap: the prelude's variables may be captured."""
        b = self
        X = lambda n: var(n, t)

        def v(f):
            def g(p, e):
                n = b.fresh()
                return f(n, p, e)
            return g
        S = lambda e: b.show(e, t)
        H = ST("hold", t)

        def named(n, p, e):
            b.p.add(Fn("cx" + n, [], t, p + [ret(e)]))
            return S(call("cx" + n, [], t))

        def namedx(n, p, e):
            if p: return named(n, p, e)
            b.p.add(Fn("cx" + n, [], t, expr=e))
            return S(call("cx" + n, [], t))

        def inif(n, p, e): return [if_([(true(), p + [das(n, e)] + S(X(n)))], [out(slit("no"))])]
        def inelse(n, p, e): return [if_([(false(), [out(slit("no"))]), (bin_("==", lit(1), lit(2)), [])], p + S(e))]
        def inwhile(n, p, e): return [das(n, lit(0)), while_(bin_("<", V(n), lit(2)), [as_(V(n), bin_("+", V(n), lit(1)))] + p + S(e))]
        def infor(n, p, e): return [range_(n, lit(0), lit(2), p + S(e))]
        def indown(n, p, e): return p + [range_(n, lit(2), lit(0), S(e))]
        def ineach(n, p, e): return p + [each(n, arr([lit(5), lit(6)]), S(e) + [out(V(n))])]
        def eachelem(n, p, e): return p + [each(n, arr([e, e]), S(X(n)))]
        def incase(n, p, e): return p + [match(call("Has", [lit(3), lit(4)], EN("may", INT)), [("Hasnt", [], []), ("Has", [n, n + "w"], S(e) + [out(V(n + "w"))])])]
        def casevar(n, p, e): return p + [match(call("Has", [lit(3), e], EN("may", t)), [("Has", [n, n + "w"], S(X(n + "w")) + [out(V(n))]), ("Hasnt", [], [out(slit("no"))])])]
        def inlam(n, p, e): return [das(n, lam([], t, body=p + [ret(e)]))] + S(call(n, [], t))
        def inlamx(n, p, e): return p + [das(n, lam([], t, expr=e))] + S(call(n, [], t))
        def inlam2(n, p, e): return p + [das(n, lam([("zz", INT)], FN([], t), body=[ret(lam([], t, body=[if_([(bin_(">", V("zz"), lit(0)), [ret(e)])]), ret(e)]))]))] + S(dyn(call(n, [lit(1)], FN([], t)), [], t))
        cs = [("print", lambda p, e: p + S(e)), ("das", v(lambda n, p, e: p + [das(n, e)] + S(X(n)))),
              ("as", v(lambda n, p, e: p + [das(n, e), as_(X(n), e)] + S(X(n)))),
              ("asfield", v(lambda n, p, e: p + [das(n, call("Hold", [e, lit(1)], H)), as_(fld(var(n, H), "v", t), e)] + S(fld(var(n, H), "v", t)) + [out(fld(var(n, H), "n", INT))])),
              ("aselem", v(lambda n, p, e: p + [das(n, arr([e, e])), as_(idx(var(n, ARR(t)), lit(1)), e)] + S(idx(var(n, ARR(t)), lit(1))))),
              ("arg1", lambda p, e: p + S(call("first", [e, call("noise", [lit(3)], INT)], t))),
              ("arg2", lambda p, e: p + S(call("second", [call("noise", [lit(3)], INT), e], t))),
              ("arg6", lambda p, e: p + S(call("sixth", [lit(1), lit(2), call("noise", [lit(5)], INT), lit(3), lit(4), e], t))),
              ("dotarg", lambda p, e: p + S(dot(call("noise", [lit(1)], INT), "second", [e], t))),
              ("receiver", lambda p, e: p + S(dot(e, "first", [lit(2)], t))),
              ("ret", v(named)), ("retx", v(namedx)), ("inif", v(inif)), ("inelse", v(inelse)), ("inwhile", v(inwhile)), ("infor", v(infor)), ("indown", v(indown)),
              ("ineach", v(ineach)), ("eachelem", v(eachelem)), ("incase", v(incase)), ("casevar", v(casevar)), ("inlam", v(inlam)),
              ("thenbr", lambda p, e: p + S(tern(bin_("<", lit(1), lit(2)), e, call("idT", [e], t)))), ("elsebr", lambda p, e: p + S(tern(false(), call("idT", [e], t), e))),
              ("arrlit", v(lambda n, p, e: p + [das(n, arr([e, call("idT", [e], t), e]))] + S(idx(var(n, ARR(t)), lit(0))) + S(idx(var(n, ARR(t)), lit(2))))),
              ("cons", v(lambda n, p, e: p + [das(n, call("Hold", [e, call("noise", [lit(2)], INT)], H))] + S(fld(var(n, H), "v", t)))),
              ("hof", v(lambda n, p, e: p + S(call("twice", [lam([(n, t)], t, expr=X(n)), e], t))))]
        if cap: cs += [("inlamx", v(inlamx)), ("inlam2", v(inlam2))]
        if t == INT:
            for op in ("+", "-", "*", "&", "|", "^"):
                cs.append(("l" + op, lambda p, e, op=op: p + [out(bin_(op, e, call("noise", [lit(9)], INT)))]))
                cs.append(("r" + op, lambda p, e, op=op: p + [out(bin_(op, call("noise", [lit(9)], INT), e))]))
                cs.append(("v" + op, v(lambda n, p, e, op=op: p + [das(n, lit(1234567)), out(bin_(op, e, V(n))), out(bin_(op, V(n), e)), out(bin_(op, e, lit(77))), out(bin_(op, lit(-77), e))])))
            cs += [("div", v(lambda n, p, e: p + [das(n, lit(-3)), out(bin_("/", e, V(n))), out(bin_("/", e, lit(7))), out(bin_("/", e, lit(-8))), out(bin_("/", e, lit(16))), out(bin_("/", lit(1000), bin_("|", e, lit(1))))])),
                   ("shift", v(lambda n, p, e: p + [das(n, lit(3)), out(bin_("<<", e, V(n))), out(bin_(">>", e, lit(7))), out(bin_(">>", lit(-99999), bin_("&", e, lit(15)))), out(bin_("<<", V(n), bin_("&", e, lit(31))))])),
                   ("un", lambda p, e: p + [out(un("-", e)), out(un("~", e)), out(un("-", un("~", e)))]),
                   ("six", lambda p, e: p + [out(call("six", [e, lit(1), e, call("noise", [e], INT), e, e], INT))]),
                   ("three", lambda p, e: p + [out(call("three", [call("noise", [lit(1)], INT), e, call("noise", [lit(2)], INT)], INT))]),
                   ("range", v(lambda n, p, e: p + [range_(n, e, bin_("+", e, lit(2)), [out(V(n))])])),
                   ("rdown", v(lambda n, p, e: p + [range_(n, bin_("&", e, lit(3)), lit(0), [out(V(n))])])),
                   ("index", v(lambda n, p, e: p + [das(n, arr([lit(10), lit(11), lit(12), lit(13)])), out(idx(var(n, ARR(INT)), bin_("&", e, lit(3))))])),
                   ("tostr", lambda p, e: p + [out(call("toString", [e], STRING))])]
            for op in CMP:
                cs.append(("c" + op, v(lambda n, p, e, op=op: p + [das(n, lit(12)), out(bin_(op, e, V(n))), out(bin_(op, lit(-7), e)), if_([(bin_(op, e, lit(3)), [out(lit(1))])], [out(lit(2))]), out(bin_(op, e, e))])))
        if t == BOOL:
            cs += [("cond", lambda p, e: p + [if_([(e, [out(lit(1))])], [out(lit(0))])]), ("cond2", lambda p, e: p + [if_([(false(), [out(lit(9))]), (e, [out(lit(1))]), (un("not", e), [out(lit(2))])], [out(lit(0))])]),
                   ("condnot", lambda p, e: p + [if_([(un("not", e), [out(lit(1))])])]),
                   ("while", v(lambda n, p, e: p + [das(n, lit(0)), while_(bin_("and", e, bin_("<", V(n), lit(2))), [out(V(n)), as_(V(n), bin_("+", V(n), lit(1)))])])),
                   ("while2", v(lambda n, p, e: p + [das(n, e), while_(var(n, BOOL), [out(slit("w")), as_(var(n, BOOL), false())])])),
                   ("terc", lambda p, e: p + [out(tern(e, lit(1), lit(2))), out(tern(un("not", e), slit("a"), slit("b")))]),
                   ("and", lambda p, e: p + [out(bin_("and", e, call("idT", [true()], BOOL))), out(bin_("and", false(), e)), out(bin_("and", true(), e)), out(bin_("and", e, e))]),
                   ("or", lambda p, e: p + [out(bin_("or", e, call("idT", [false()], BOOL))), out(bin_("or", false(), e)), out(bin_("or", true(), e)), out(bin_("or", e, e))]),
                   ("not", lambda p, e: p + [out(un("not", e)), out(un("not", un("not", e)))]),
                   ("tostr", lambda p, e: p + [out(call("toString", [e], STRING))])]
        return cs


def _horner(ns):
    e = lit(0)
    for c in ns: e = bin_("+", bin_("*", e, lit(31)), V(c))
    return e


def pairwise(rng, *dims):
    """index tuples covering every pair of values of every two dimensions"""
    k = len(dims)
    need = {(i, j, a, c) for i in range(k) for j in range(i + 1, k) for a in range(dims[i]) for c in range(dims[j])}
    order = list(need)
    rng.shuffle(order)
    rows = []
    for i, j, a, c in order:
        if (i, j, a, c) not in need: continue
        best, bs = None, -1
        for _ in range(12 if k > 2 else 1):
            row = [rng.randrange(d) for d in dims]
            row[i], row[j] = a, c
            s = sum((x, y, row[x], row[y]) in need for x in range(k) for y in range(x + 1, k))
            if s > bs: best, bs = row, s
        rows.append(tuple(best))
        for x in range(k):
            for y in range(x + 1, k): need.discard((x, y, best[x], best[y]))
    return rows


def batches(rng, ext, probes, per_case=12, per_file=20, head=None):
    """probes: [fn(bench) -> statements] -> files"""
    files = []
    cur = None
    for i in range(0, len(probes), per_case):
        if cur is None or len(cur.entries) >= per_file:
            cur = Bench(rng, ext)
            if head: head(cur)
            files.append(cur)
        ss = []
        for j, f in enumerate(probes[i:i + per_case]):
            # a scope of its own for every probe
            ss.append(if_([(true(), [out(lit(9000 + j))] + f(cur))]))
        cur.case(ss)
    return [b.file() for b in files]


def matrix(rng, t, mk, forms=None, contexts=None, cap=True, frac=1.0, ext=True, head=None, pre=None, wrap=None):
    """files covering every pair (value form, context) for type t.  mk(bench) -> an expression of type t (may vary).
    forms / contexts: names to keep.  pre(bench, n) -> statements before each probe.  wrap(statements) -> statements."""
    b0 = Bench(rng, ext)
    nf = [n for n, _ in b0.value_forms(t) if forms is None or n in forms]
    nc = [n for n, _ in b0.contexts(t, cap) if contexts is None or n in contexts]
    rows = list(itertools.product(nf, nc))
    rng.shuffle(rows)
    rows = rows[:max(1, int(len(rows) * frac))]

    def probe(fn, cn):
        def f(b):
            form = dict(b.value_forms(t))[fn]
            con = dict(b.contexts(t, cap))[cn]
            p, e = form(mk(b))
            ss = con(p, e)
            return (pre(b) if pre else []) + (wrap(ss) if wrap else ss)
        return f
    return batches(rng, ext, [probe(a, c) for a, c in rows], head=head)


def collecting(b):
    """head: every helper of the bench collects first"""
    for d in b.p.decls:
        if isinstance(d, Fn) and not d.extern:
            if d.expr is not None: d.body, d.expr = [ret(d.expr)], None
            d.body = [expr(call("gc", [], NOTHING))] + d.body
    b.p.add(Fn("fresh", [("s", STRING)], STRING, [das("r", call("append", [var("s", STRING), slit("!")], STRING)), expr(call("gc", [], NOTHING)), ret(var("r", STRING))]))
    b.p.add(Fn("mkf", [("s", STRING)], FN([], STRING), [das("r", call("append", [var("s", STRING), slit("*")], STRING)), ret(lam([], STRING, body=[expr(call("gc", [], NOTHING)), ret(var("r", STRING))]))]))
    b.p.add(Fn("mkb", [("n", INT)], BYTES, [das("r", call("Bytes", [lit(3)], BYTES)), expr(dot(var("r", BYTES), "set", [lit(0), V("n")], NOTHING)), ret(var("r", BYTES))]))


def fresh_value(b, t):
    """an expression that allocates a value of type t"""
    r = b.r
    S = lambda: call("fresh", [slit(r.choice(["a", "bc", "def"]))], STRING) if r.random() < .5 else call("append", [slit(r.choice("xyz")), slit("-")], STRING)
    if t == STRING: return S()
    if t == BYTES: return call("mkb", [lit(r.randint(1, 9))], BYTES)
    if t == INT: return lit(r.randint(0, 99))
    if t[0] == "arr": return arr([fresh_value(b, t[1]) for _ in range(r.randint(1, 3))])
    if t[0] == "fn": return call("mkf", [S()], t)
    if t[1] == "hold": return call("Hold", [fresh_value(b, t[2][0]), lit(r.randint(0, 9))], t)
    if t[1] == "may": return call("Has", [lit(r.randint(0, 9)), fresh_value(b, t[2][0])], t)
    raise Exception(t)


# ---------------------------------------------------------------------------------------------- reading and changing state
CELL = ST("cell")
C_ = lambda: var("c", CELL)


def state_head(b):
    p = b.p
    p.add(Struct("cell", [("n", INT), ("xs", ARR(INT)), ("h", ST("hold", INT)), ("bs", BYTES), ("buf", BUF), ("s", STRING), ("f", FN([INT], INT))]))
    p.decls[-1].fields = p.decls[-1].fields[:6]
    add1 = lambda e: bin_("+", e, lit(1))
    fn_, xs0 = fld(C_(), "n", INT), idx(fld(C_(), "xs", ARR(INT)), lit(0))
    hv = fld(fld(C_(), "h", ST("hold", INT)), "v", INT)
    chg = [as_(fn_, add1(fn_)), as_(xs0, add1(xs0)), as_(hv, add1(hv)), expr(dot(fld(C_(), "bs", BYTES), "set", [lit(0), fn_], NOTHING)),
           expr(dot(fld(C_(), "buf", BUF), "append", [lit(65)], NOTHING)), as_(fld(C_(), "s", STRING), call("append", [fld(C_(), "s", STRING), slit("z")], STRING))]
    p.add(Fn("bump", [("c", CELL)], INT, [out(slit("bump"))] + chg + [ret(bin_("*", fn_, lit(10)))]))
    p.add(Fn("bumpk", [("c", CELL), ("k", INT)], INT, chg + [ret(V("k"))]))
    p.add(Fn("fresh", [], CELL, expr=call("Cell", [lit(1), arr([lit(1), lit(2), lit(3), lit(4)]), call("Hold", [lit(1), lit(0)], ST("hold", INT)), call("Bytes", [lit(4)], BYTES), call("NewByteBuffer", [lit(1)], BUF), slit("s")], CELL)))
    p.add(Fn("getn", [("c", CELL)], INT, expr=fn_))
    p.add(Fn("same", [("c", CELL)], CELL, [out(slit("same")), ret(C_())]))
    p.add(Fn("mkf", [("n", INT)], FN([INT], INT), expr=lam([("q", INT)], INT, expr=bin_("-", bin_("*", V("n"), lit(7)), V("q")))))
    for k in (2, 3, 4, 5, 6):
        b.ext.append(Fn("vraw%d" % k, [("abcdef"[j], INT) for j in range(k)], INT, extern=True, attr="RawValues"))


def state_readers():
    fn_, xs = fld(C_(), "n", INT), fld(C_(), "xs", ARR(INT))
    return [("field", lambda: fn_), ("elem", lambda: idx(xs, lit(0))), ("nested", lambda: fld(fld(C_(), "h", ST("hold", INT)), "v", INT)), ("alias", lambda: idx(var("al", ARR(INT)), lit(0))),
            ("call", lambda: call("getn", [C_()], INT)), ("dot", lambda: dot(C_(), "getn", [], INT)), ("id", lambda: call("idT", [fn_], INT)), ("plus", lambda: bin_("+", fn_, lit(0))),
            ("tern", lambda: tern(bin_(">", fn_, lit(0)), fn_, lit(0))), ("arr", lambda: idx(arr([fn_]), lit(0))), ("neg", lambda: un("-", fn_)), ("bytes", lambda: dot(fld(C_(), "bs", BYTES), "get", [lit(0)], INT)),
            ("size", lambda: call("size", [fld(C_(), "buf", BUF)], INT)), ("len", lambda: fld(fld(C_(), "s", STRING), "length", INT)), ("lam", lambda: dyn(lam([("q", CELL)], INT, body=[ret(fld(var("q", CELL), "n", INT))]), [C_()], INT)),
            ("clos", lambda: call("rd", [], INT)), ("lit", lambda: lit(5)), ("var", lambda: V("loc")), ("cmp", lambda: tern(bin_("==", fn_, lit(1)), lit(1), lit(2))), ("mul", lambda: bin_("*", lit(3), fn_))]


def state_writers():
    bu = lambda: call("bump", [C_()], INT)
    return [("call", bu), ("dot", lambda: dot(C_(), "bump", [], INT)), ("clos", lambda: call("wr", [], INT)), ("id", lambda: call("idT", [bu()], INT)), ("plus", lambda: bin_("+", bu(), lit(0))), ("rplus", lambda: bin_("+", lit(0), bu())),
            ("arr", lambda: idx(arr([lit(1), bu()]), lit(1))), ("idx", lambda: idx(fld(C_(), "xs", ARR(INT)), bin_("&", bu(), lit(1)))), ("tern", lambda: tern(true(), bu(), lit(0))), ("ternc", lambda: tern(bin_(">", bu(), lit(3)), lit(8), lit(9))),
            ("cons", lambda: fld(call("Hold", [bu(), lit(0)], ST("hold", INT)), "v", INT)), ("ext", lambda: call("vid", [bu()], INT)), ("neg", lambda: un("-", bu())), ("lam", lambda: dyn(lam([("q", CELL)], INT, body=[ret(call("bump", [var("q", CELL)], INT))]), [C_()], INT)),
            ("two", lambda: call("bumpk", [C_(), bu()], INT)), ("div", lambda: bin_("/", bu(), lit(3))), ("shift", lambda: bin_("<<", bu(), lit(2))), ("cmp", lambda: tern(bin_("<", bu(), bu()), lit(1), lit(2))), ("same", lambda: fld(call("same", [C_()], CELL), "n", INT)),
            ("gen", lambda: call("sixth", [lit(1), lit(2), lit(3), lit(4), lit(5), bu()], INT))]


def state_pairs():
    """contexts of two operands, in source order"""
    cs = []
    for op in ("+", "-", "*", "&", "|", "^"): cs.append(("op" + op, lambda b, x, y, op=op: [out(bin_(op, x, y))]))
    for op in CMP: cs.append(("op" + op, lambda b, x, y, op=op: [out(bin_(op, x, y))]))
    cs += [("/", lambda b, x, y: [out(bin_("/", bin_("*", x, lit(1000)), bin_("|", y, lit(1))))]), ("<<", lambda b, x, y: [out(bin_("<<", x, bin_("&", y, lit(7))))]), (">>", lambda b, x, y: [out(bin_(">>", bin_("*", x, lit(1000)), bin_("&", y, lit(7))))])]
    for op in ("and", "or"): cs.append((op, lambda b, x, y, op=op: [out(bin_(op, bin_(">", x, lit(1)), bin_(">", y, lit(1))))]))
    for n, i, j in [(2, 0, 1), (3, 0, 2), (3, 1, 2), (3, 0, 1), (4, 1, 3), (5, 0, 4), (6, 0, 5), (6, 4, 5), (6, 2, 3), (6, 0, 1)]:
        cs.append(("show%d_%d%d" % (n, i, j), lambda b, x, y, n=n, i=i, j=j: [expr(call("show%d" % n, [x if q == i else y if q == j else lit(100 + q) for q in range(n)], NOTHING))]))
    for n, i, j in [(2, 0, 1), (4, 1, 3), (6, 0, 5)]:
        cs.append(("ext%d_%d%d" % (n, i, j), lambda b, x, y, n=n, i=i, j=j: [out(call("vraw%d" % n, [x if q == i else y if q == j else lit(100 + q) for q in range(n)], INT))]))
        cs.append(("fld%d_%d%d" % (n, i, j), lambda b, x, y, n=n, i=i, j=j: [expr(call("show%d" % n, [x if q == i else y if q == j else fld(C_(), "n", INT) for q in range(n)], NOTHING))]))

    def w(f): return lambda b, x, y: f(b.fresh(), x, y)
    H = ST("hold", INT)
    cs += [("arr", w(lambda n, x, y: [das(n, arr([x, y])), out(idx(var(n, ARR(INT)), lit(0))), out(idx(var(n, ARR(INT)), lit(1)))])),
           ("cons", w(lambda n, x, y: [das(n, call("Hold", [x, y], H)), out(fld(var(n, H), "v", INT)), out(fld(var(n, H), "n", INT))])),
           ("enum", w(lambda n, x, y: [match(call("Has", [x, y], EN("may", INT)), [("Has", [n, n + "w"], [out(V(n)), out(V(n + "w"))]), ("Hasnt", [], [])])])),
           ("recv", lambda b, x, y: [out(dot(x, "second", [y], INT)), ]), ("recv1", lambda b, x, y: [out(dot(x, "first", [y], INT))]), ("three", lambda b, x, y: [out(dot(x, "three", [y, lit(1)], INT))]),
           ("ternc", lambda b, x, y: [out(tern(bin_(">", x, lit(1)), y, lit(77)))]), ("idx", lambda b, x, y: [out(bin_("+", idx(arr([lit(1), lit(20), lit(300), lit(4000)]), bin_("&", x, lit(3))), y))]),
           ("idx2", lambda b, x, y: [out(idx(arr([x, y]), bin_("&", y, lit(1))))]), ("asidx", lambda b, x, y: [as_(idx(fld(C_(), "xs", ARR(INT)), bin_("&", x, lit(3))), y)]), ("asidx2", lambda b, x, y: [as_(idx(var("al", ARR(INT)), bin_("&", y, lit(3))), x)]),
           ("asidx3", lambda b, x, y: [as_(idx(fld(call("same", [C_()], CELL), "xs", ARR(INT)), bin_("&", x, lit(3))), y)]),
           ("asfld", lambda b, x, y: [as_(fld(C_(), "n", INT), bin_("+", x, y))]), ("asfld2", lambda b, x, y: [as_(fld(call("same", [C_()], CELL), "n", INT), bin_("-", x, y))]), ("asown", lambda b, x, y: [as_(fld(C_(), "n", INT), y)]),
           ("range", w(lambda n, x, y: [range_(n, bin_("&", x, lit(3)), bin_("+", lit(3), bin_("&", y, lit(1))), [out(V(n))])])),
           ("dyn", lambda b, x, y: [out(dyn(call("mkf", [x], FN([INT], INT)), [y], INT))]), ("nest", lambda b, x, y: [out(call("three", [call("idT", [x], INT), call("second", [lit(0), y], INT), fld(C_(), "n", INT)], INT))]),
           ("nest2", lambda b, x, y: [out(call("six", [x, call("three", [x, y, x], INT), y, lit(3), call("noise", [y], INT), x], INT))]), ("deep", lambda b, x, y: [out(bin_("-", bin_("+", x, bin_("*", lit(2), y)), bin_("-", x, y)))]),
           ("ret", w(lambda n, x, y: [das(n, lam([("c", CELL), ("al", ARR(INT)), ("loc", INT), ("rd", FN([], INT)), ("wr", FN([], INT))], INT, body=[ret(call("three", [x, y, fld(C_(), "n", INT)], INT))])), out(call(n, [C_(), var("al", ARR(INT)), V("loc"), var("rd", FN([], INT)), var("wr", FN([], INT))], INT))])),
           ("if", lambda b, x, y: [if_([(bin_("==", x, lit(99)), [out(lit(1))]), (bin_(">", y, lit(1)), [out(lit(2))])], [out(lit(3))])]), ("str", lambda b, x, y: [out(call("append", [call("toString", [x], STRING), call("toString", [y], STRING)], STRING))])]
    return cs


def state_probe(b, rd, wr, con, swap):
    ss = [das("c", call("fresh", [], CELL)), das("al", fld(C_(), "xs", ARR(INT))), das("loc", lit(50)), das("rd", lam([], INT, expr=fld(C_(), "n", INT))), das("wr", lam([], INT, body=[das("cc", C_()), ret(call("bump", [var("cc", CELL)], INT))]))]
    x, y = (wr(), rd()) if swap else (rd(), wr())
    ss += con(b, x, y)
    return ss + [out(fld(C_(), "n", INT)), out(idx(fld(C_(), "xs", ARR(INT)), lit(0))), out(idx(fld(C_(), "xs", ARR(INT)), lit(1)))]


def state_matrix(rng, full=False):
    R, W, P = state_readers(), state_writers(), state_pairs()
    rows = list(itertools.product(range(len(R)), range(len(W)), range(len(P)), range(2))) if full else pairwise(rng, len(R), len(W), len(P), 2)
    rng.shuffle(rows)
    return batches(rng, True, [lambda b, q=q: state_probe(b, R[q[0]][1], W[q[1]][1], P[q[2]][1], q[3]) for q in rows], head=state_head)


# ---------------------------------------------------------------------------------------------- array accesses
def accesses():
    def w(f): return lambda b, a, i: f(b, b.fresh(), a, i)
    A = ARR(INT)
    return [("print", w(lambda b, n, a, i: [out(idx(a, i))])), ("das", w(lambda b, n, a, i: [das(n, idx(a, i)), out(V(n))])), ("arg", w(lambda b, n, a, i: [out(call("three", [lit(1), idx(a, i), lit(2)], INT))])),
            ("cond", w(lambda b, n, a, i: [if_([(bin_(">", idx(a, i), lit(20)), [out(lit(1))])], [out(lit(0))])])), ("oper", w(lambda b, n, a, i: [out(bin_("+", lit(1000), idx(a, i)))])), ("loper", w(lambda b, n, a, i: [out(bin_("-", idx(a, i), call("noise", [lit(1)], INT)))])),
            ("nest", w(lambda b, n, a, i: [das(n, arr([a])), out(idx(idx(var(n, ARR(A)), lit(0)), i))])), ("tern", w(lambda b, n, a, i: [out(tern(true(), idx(a, i), lit(0)))])), ("asidx", w(lambda b, n, a, i: [out(idx(arr([lit(5), lit(6)]), bin_("&", idx(a, i), lit(1))))])),
            ("ret", w(lambda b, n, a, i: [das(n, lam([("aa", A), ("ii", INT)], INT, body=[ret(idx(var("aa", A), V("ii")))])), out(call(n, [a, i], INT))])),
            ("wlit", w(lambda b, n, a, i: [as_(idx(a, i), lit(77))])), ("wvar", w(lambda b, n, a, i: [das(n, lit(78)), as_(idx(a, i), V(n))])), ("wcall", w(lambda b, n, a, i: [as_(idx(a, i), call("noise", [lit(3)], INT))])),
            ("wself", w(lambda b, n, a, i: [as_(idx(a, i), bin_("+", idx(a, i), lit(1)))])), ("wcopy", w(lambda b, n, a, i: [as_(idx(a, i), idx(a, lit(1)))])), ("wnest", w(lambda b, n, a, i: [das(n, arr([a])), as_(idx(idx(var(n, ARR(A)), lit(0)), i), lit(79))])),
            ("wret", w(lambda b, n, a, i: [das(n, lam([("aa", A), ("ii", INT)], NOTHING, body=[as_(idx(var("aa", A), V("ii")), V("ii"))])), expr(call(n, [a, i], NOTHING))])), ("wloop", w(lambda b, n, a, i: [range_(n, lit(0), lit(2), [out(V(n)), as_(idx(a, i), V(n))])]))]


def access_matrix(rng, good, bad, full=False):
    """every index form with every access, every array form with every access and index form; index values good / bad for length 4"""
    b0 = Bench(rng)
    A = ARR(INT)
    IF = [n for n, _ in b0.value_forms(INT)] + ["paramidx", "loopidx", "rangeidx", "caseidx", "capidx"]
    AF = [n for n, _ in b0.value_forms(A)]
    AC = accesses()
    vals = [(v, True) for v in bad] + [(v, False) for v in good]
    dims = (len(IF), len(AF), len(AC), len(vals))
    rows = pairwise(rng, *dims)
    if full: rows = rows + [tuple(rng.randrange(d) for d in dims) for _ in range(4 * len(rows))]

    def probe(b, q):
        base = arr([lit(10), lit(20), lit(30), lit(40)])
        v = vals[q[3]][0]
        e = bin_("-", lit(MINI + 1), lit(1)) if v == MINI else lit(v)
        pre = [das("base", base)]
        pa, a = dict(b.value_forms(A))[AF[q[1]]](var("base", A))
        name = IF[q[0]]
        if AC[q[2]][0].startswith("w") and Render().base(a)[0] in ("(", "[", "fn"):      # a statement cannot begin with these
            pa, a = pa + [das("first", a)], var("first", A)
        tail = [each("el", var("base", A), [out(V("el"))])]
        acc = AC[q[2]][1]
        if name == "paramidx":
            f = b.fresh("px")
            b.p.add(Fn(f, [("base", A), ("pi", INT)], NOTHING, pa + acc(b, a, V("pi"))))
            return pre + [expr(call(f, [var("base", A), e], NOTHING))] + tail
        if name == "loopidx": return pre + pa + [each("li", arr([e]), acc(b, a, V("li")))] + tail
        if name == "rangeidx" and v < MAXI: return pre + pa + [das("lo", e), range_("ri", V("lo"), bin_("+", V("lo"), lit(1)), acc(b, a, V("ri")))] + tail
        if name == "caseidx": return pre + pa + [match(call("Has", [e, lit(1)], EN("may", INT)), [("Hasnt", [], []), ("Has", ["ci", "cw"], acc(b, a, V("ci")))])] + tail
        if name == "capidx" or name == "rangeidx": return pre + pa + [das("cp", e), das("fc", lam([("base", A), ("av", A)], NOTHING, body=acc(b, var("av", A), V("cp")))), expr(call("fc", [var("base", A), a], NOTHING))] + tail
        pi, i = dict(b.value_forms(INT))[name](e)
        return pre + pa + pi + acc(b, a, i) + tail
    goodrows = [q for q in rows if not vals[q[3]][1]]
    badrows = [q for q in rows if vals[q[3]][1]]
    files = batches(rng, True, [lambda b, q=q: probe(b, q) for q in goodrows])
    cur = None
    for q in badrows:
        if cur is None or len(cur.entries) >= 60:
            if cur: files.append(cur.file())
            cur = Bench(rng)
        cur.case([out(slit("before"))] + probe(cur, q) + [out(slit("after"))])
    if cur: files.append(cur.file())
    return files
