"""C15 list / option / result, C17 reclamation: decided by ClaraCore's definitions of these functions and of reachability."""
import itertools, random
from clara import *
from core import *
from gen import *
from forms import *
from core_a import I, U, add_cases

T_ = PAR("T")
OPTION = Enum("option", [("Some", [("t", T_)]), ("None", [])], ("T",))
LIST = Enum("list", [("Element", [("val", T_), ("rest", EN("list", T_))]), ("Empty", [])], ("T",))
RESULT = Enum("result", [("Ok", [("val", T_)]), ("Err", [("val", PAR("E"))])], ("T", "E"))
EITHER = Enum("either", [("Left", [("val", PAR("L"))]), ("Right", [("val", PAR("R"))])], ("L", "R"))
PAIR = Struct("pair", [("first", T_), ("second", PAR("R"))], ("T", "R"))
HIDDEN = [OPTION, LIST, RESULT, EITHER, PAIR]


def L(t): return EN("list", t)
def O(t): return EN("option", t)
def R(t, e=STRING): return EN("result", t, e)
def c(f, args, t, r=None):
    """call or method call"""
    return dot(args[0], f, args[1:], t) if r is not None and args and r.random() < .5 and args[0].k != "lam" else call(f, args, t)
def empty(t): return call("Empty", [], L(t), (t,))
def none(t): return call("None", [], O(t), (t,))
def some(e): return call("Some", [e], O(e.t))
def ok(e, E=STRING): return call("Ok", [e], R(e.t, E), (e.t, E))
def err(e, t): return call("Err", [e], R(t, e.t), (t, e.t))


class LG:
    def __init__(self, r):
        self.r = r
        self.n = 0

    def fresh(self, b="v"):
        self.n += 1
        return "%s%d" % (b, self.n)

    def el(self, t):
        r = self.r
        if t == INT: return lit(r.choice([0, 1, 2, 3, -1, 7, MAXI, MINI + 1]))
        if t == BOOL: return blit(r.random() < .5)
        if t == STRING: return r.choice([slit(r.choice([b"", b"a", b"b", b"ab"])), call("append", [slit("x"), slit(r.choice("ab"))], STRING)])
        if t[0] == "st": return call("Pt", [lit(r.randint(0, 3)), slit(r.choice("pq"))], t)
        if t[1] == "list": return self.lst(t[2][0], 1)
        if t[1] == "option": return self.opt(t[2][0])
        raise Exception(t)

    def show(self, e, t):
        """statements printing e"""
        if t in (INT, BOOL, STRING): return [out(e)]
        if t[0] == "st" and t[1] == "pt": return [out(fld(e, "x", INT)), out(fld(e, "s", STRING))]
        if t[0] == "st" and t[1] == "pair":
            v = self.fresh("pr")
            return [das(v, e)] + self.show(fld(var(v, t), "first", t[2][0]), t[2][0]) + self.show(fld(var(v, t), "second", t[2][1]), t[2][1])
        if t[1] == "list":
            v = self.fresh("sv")
            return [expr(call("foreach", [e, lam([(v, t[2][0])], NOTHING, body=self.show(var(v, t[2][0]), t[2][0]))], NOTHING)), out(slit("."))]
        if t[1] == "option":
            v = self.fresh("ov")
            return [match(e, [("None", [], [out(slit("none"))]), ("Some", [v], self.show(var(v, t[2][0]), t[2][0]))])]
        if t[1] == "result":
            v = self.fresh("rv")
            return [match(e, [("Ok", [v], [out(slit("ok"))] + self.show(var(v, t[2][0]), t[2][0])), ("Err", [v + "e"], [out(slit("err"))] + self.show(var(v + "e", t[2][1]), t[2][1]))])]
        raise Exception(t)

    def pred(self, t):
        v = self.fresh("p")
        x = var(v, t)
        r = self.r
        if t == INT: e = bin_(r.choice(CMP), x, lit(r.choice([0, 1, 2, 3, -1])))
        elif t == STRING: e = r.choice([call("Equals", [x, slit(r.choice([b"", b"a", b"xa"]))], BOOL), bin_(">", fld(x, "length", INT), lit(r.choice([0, 1])))])
        elif t == BOOL: e = r.choice([x, un("not", x)])
        elif t[0] == "st": e = bin_("==", fld(x, "x", INT), lit(r.randint(0, 3)))
        elif t[1] == "option": e = c("isSome", [x], BOOL, r)
        else: e = blit(r.random() < .5)
        return lam([(v, t)], BOOL, expr=e)

    def conv(self, t, u, effect=True):
        """fn(t) u"""
        v = self.fresh("m")
        x = var(v, t)
        r = self.r
        if t == u == INT: e = bin_("+", bin_("*", x, lit(10)), lit(r.randint(0, 9)))
        elif u == INT and t == STRING: e = fld(x, "length", INT)
        elif u == STRING and t == INT: e = call("append", [slit("<"), call("toString", [x], STRING)], STRING)
        elif u == STRING and t == STRING: e = call("append", [x, slit("!")], STRING)
        elif u == t: e = x
        else: e = self.el(u)
        if effect and r.random() < .4: return lam([(v, t)], u, body=self.show(x, t) + [ret(e)])
        return lam([(v, t)], u, expr=e)

    def red(self, t):
        a, b = self.fresh("a"), self.fresh("b")
        A, B = var(a, t), var(b, t)
        if t == INT: e = bin_("-", bin_("*", A, lit(3)), B)
        elif t == STRING: e = call("append", [call("append", [A, slit("|")], STRING), B], STRING)
        elif t == BOOL: e = bin_("and", un("not", A), B)
        else: e = B
        return lam([(a, t), (b, t)], t, body=self.show(B, t) + [ret(e)]) if self.r.random() < .4 else lam([(a, t), (b, t)], t, expr=e)

    def lst(self, t, d):
        r = self.r
        k = r.randrange(7) if d > 0 else r.randrange(2)
        if k == 0: return empty(t)
        if k == 1: return call("toList", [arr([self.el(t) for _ in range(r.randint(1, 4))])], L(t)) if r.random() < .7 else dot(arr([self.el(t)]), "toList", [], L(t))
        if k == 2: return call("Element", [self.el(t), self.lst(t, d - 1)], L(t))
        if k == 3: return c("append", [self.lst(t, d - 1), self.el(t)], L(t), r)
        if k == 4: return c("reverse", [self.lst(t, d - 1)], L(t), r)
        if k == 5: u = r.choice([INT, STRING, t]); return c("map", [self.lst(u, d - 1), self.conv(u, t)], L(t), r)
        return fld(c("remove", [self.lst(t, d - 1), self.pred(t)], ST("pair", L(t), O(t)), r), "first", L(t))

    def opt(self, t, d=2):
        r = self.r
        k = r.randrange(8) if d > 0 else r.randrange(2)
        if k == 0: return none(t)
        if k == 1: return some(self.el(t))
        if k == 2: return c("filter", [self.opt(t, d - 1), self.pred(t)], O(t), r)
        if k in (3, 4): u = r.choice([INT, STRING, t]); return c("map", [self.opt(u, d - 1), self.conv(u, t)], O(t), r)
        if k == 5: v = self.fresh("k"); return c("peek", [self.opt(t, d - 1), lam([(v, t)], NOTHING, body=[out(slit("peek"))] + self.show(var(v, t), t))], O(t), r)
        if k == 6: return c("find", [self.lst(t, d - 1), self.pred(t)], O(t), r)
        return fld(c("remove", [self.lst(t, d - 1), self.pred(t)], ST("pair", L(t), O(t)), r), "second", O(t))

    def res(self, t, d=2):
        r = self.r
        k = r.randrange(7) if d > 0 else r.randrange(2)
        if k == 0: return err(self.el(STRING), t)
        if k == 1: return ok(self.el(t))
        if k in (2, 3): u = r.choice([INT, STRING, t]); return c("map", [self.res(u, d - 1), self.conv(u, t)], R(t), r)
        if k in (4, 5):
            u = r.choice([INT, STRING, t])
            v = self.fresh("th")
            return c("then", [self.res(u, d - 1), lam([(v, u)], R(t), body=[out(slit("then"))] + self.show(var(v, u), u) + [ret(self.res(t, 0))])], R(t), r)
        v = self.fresh("k")
        return c("peek", [self.res(t, d - 1), lam([(v, t)], O(STRING), body=[out(slit("peek"))] + self.show(var(v, t), t) + [ret(self.opt(STRING, 0))])], R(t), r)


def c15(ctx):
    r = random.Random(ctx.seed * 7919 + 15)
    files = []

    def newfile(bodies):
        p = Prog()
        p.add(Struct("pt", [("x", INT), ("s", STRING)]))
        f = File(p, add_cases(p, bodies))
        f.hidden = HIDDEN
        files.append(f)
    # every list over {0, 1} up to length 4 and every function on it; the list is printed again afterwards
    bodies = []
    g = LG(r)
    V2 = [lam([("x", INT)], BOOL, expr=e) for e in (bin_("==", V("x"), lit(0)), bin_("==", V("x"), lit(1)), true(), false())]
    mk = [("foreach", 2), ("map", 2)]
    for n in range(0, 5):
        for q in itertools.product([0, 1], repeat=n):
            l = var("l", L(INT))
            ss = [das("l", call("toList", [arr([lit(x) for x in q])], L(INT)) if n else empty(INT))]
            sh = lambda e, t: ss.extend(g.show(e, t))
            sh(l, L(INT))
            sh(c("append", [l, lit(5)], L(INT), r), L(INT)); sh(c("reverse", [l], L(INT), r), L(INT))
            sh(call("map", [l, lam([("x", INT)], STRING, expr=call("append", [call("toString", [V("x")], STRING), slit("'")], STRING))], L(STRING)), L(STRING))
            for f in V2:
                sh(c("find", [l, f], O(INT), r), O(INT)); sh(c("remove", [l, f], ST("pair", L(INT), O(INT)), r), ST("pair", L(INT), O(INT)))
            ss.append(out(c("reduce", [l, lit(2), lam([("a", INT), ("b", INT)], INT, expr=bin_("+", bin_("*", V("a"), lit(3)), V("b")))], INT, r)))
            sh(l, L(INT))
            bodies.append(ss)
    # distinct elements: positions matter
    for n in (1, 2, 3, 5, 8, 40):
        l = var("l", L(INT))
        ss = [das("a", call("array", [lit(n), lit(0)], ARR(INT))), range_("i", lit(0), lit(n), [as_(idx(var("a", ARR(INT)), V("i")), bin_("*", V("i"), V("i")))]), das("l", dot(var("a", ARR(INT)), "toList", [], L(INT)))]
        for k in sorted({0, 1, n // 2, n - 1, n}):
            f = lam([("x", INT)], BOOL, expr=bin_(r.choice(["==", ">="]), V("x"), lit(k * k)))
            ss += g.show(dot(l, "find", [f], O(INT)), O(INT)) + g.show(dot(l, "remove", [f], ST("pair", L(INT), O(INT))), ST("pair", L(INT), O(INT)))
        ss += g.show(dot(l, "reverse", [], L(INT)), L(INT)) + g.show(dot(l, "map", [lam([("x", INT)], INT, body=[out(V("x")), ret(bin_("-", lit(0), V("x")))])], L(INT)), L(INT)) + g.show(l, L(INT))
        ss += [out(dot(l, "reduce", [lit(0), lam([("a", INT), ("b", INT)], INT, expr=bin_("-", V("b"), V("a")))], INT))]
        bodies.append(ss)
    # options and results: every function on every shape, chains of two
    for t in (INT, STRING, BOOL, ST("pt"), L(INT), O(STRING)):
        for o in (none(t), some(g.el(t))):
            x = var("o", O(t))
            ss = [das("o", o), out(dot(x, "isSome", [], BOOL)), out(call("isNone", [x], BOOL))] + g.show(call("orElse", [x, g.el(t)], t), t)
            for e, u in [(c("map", [x, g.conv(t, INT)], O(INT), r), O(INT)), (c("map", [x, g.conv(t, STRING)], O(STRING), r), O(STRING)), (c("filter", [x, g.pred(t)], O(t), r), O(t)),
                         (c("filter", [x, lam([("z", t)], BOOL, expr=true())], O(t), r), O(t)), (c("filter", [x, lam([("z", t)], BOOL, expr=false())], O(t), r), O(t)),
                         (c("peek", [x, lam([("z", t)], NOTHING, body=[out(slit("seen"))])], O(t), r), O(t))]: ss += g.show(e, u)
            bodies.append(ss + g.show(x, O(t)))
        for o in (ok(g.el(t)), err(slit("bad"), t), call("Err", [lit(7)], R(t, INT), (t, INT)), call("Ok", [g.el(t)], R(t, INT), (t, INT))):
            rt = o.t
            E = rt[2][1]
            x = var("o", rt)
            ss = [das("o", o)]
            for u in (INT, STRING, t):
                ss += g.show(c("map", [x, g.conv(t, u)], R(u, E), r), R(u, E))
                for rr in (call("Ok", [g.el(u)], R(u, E), (u, E)), call("Err", [g.el(E)], R(u, E), (u, E))):
                    ss += g.show(c("then", [x, lam([("z", t)], R(u, E), body=[out(slit("then")), ret(rr)])], R(u, E), r), R(u, E))
            for oo in (none(E), some(g.el(E))):
                ss += g.show(c("peek", [x, lam([("z", t)], O(E), body=[out(slit("peek"))] + [ret(oo)])], rt, r), rt)
            bodies.append(ss + g.show(x, rt))
    for i in range(0, len(bodies), 30): newfile(bodies[i:i + 30])
    # random compositions
    for k in range(ctx.scale(8, 80)):
        bodies = []
        for _ in range(12):
            g = LG(r)
            ss = []
            for _ in range(r.randint(2, 4)):
                t = r.choice([INT, INT, STRING, STRING, BOOL, ST("pt"), L(INT), O(INT)])
                kk = r.randrange(4)
                v = g.fresh()
                if kk == 0:
                    ss += [das(v, g.lst(t, 3))] + g.show(var(v, L(t)), L(t)) + g.show(c("reduce", [var(v, L(t)), g.el(t), g.red(t)], t, r), t) + g.show(c("reverse", [var(v, L(t))], L(t), r), L(t)) + g.show(var(v, L(t)), L(t))
                elif kk == 1: ss += [das(v, g.opt(t, 3))] + g.show(var(v, O(t)), O(t)) + g.show(c("orElse", [var(v, O(t)), g.el(t)], t, r), t)
                elif kk == 2: ss += [das(v, g.res(t, 3))] + g.show(var(v, R(t)), R(t))
                else: ss += g.show(c("map", [g.lst(t, 2), lam([("q", t)], O(t), expr=some(var("q", t)))], L(O(t)), r), L(O(t)))
            bodies.append(ss)
        newfile(bodies)
    check_core(ctx, files, what="lists, options and results")


# -------------------------------------------------------------------------------------------------- C17
NODE, LINK = ST("node"), EN("link")
VTRACK = Fn("vtrack", [("x", T_), ("id", INT)], INT, extern=True, tparams=("T",))
VPROBE = Fn("vprobe", [("id", INT)], INT, extern=True, attr="RawValues")


class Heap:
    """programs that build, link and drop tracked objects; probeAll(n) collects and asks for every object 0..n-1"""

    def __init__(self, r):
        self.r = r
        p = self.p = Prog()
        self.entries = []
        self.n = 0
        p.add(Enum("link", [("Nil", []), ("To", [("n", NODE)]), ("Both", [("a", NODE), ("b", LINK)])]))
        p.add(Struct("node", [("v", INT), ("l", LINK), ("a", ARR(LINK)), ("f", FN([], INT)), ("s", STRING), ("b", BYTES)]))
        p.add(Struct("hold", [("v", T_), ("n", INT)], ("T",)))
        p.add(Struct("last", [("i", INT), ("j", BOOL), ("k", INT), ("m", STRING), ("o", INT), ("v", T_)], ("T",)))
        p.add(Enum("may", [("Hasnt", []), ("Has", [("pad", INT), ("v", T_)]), ("Five", [("q", INT), ("w", INT), ("e", INT), ("r", INT), ("v", T_)])], ("T",)))
        p.add(Fn("zero", [], INT, expr=lit(0)))
        p.add(Fn("mk", [("v", INT)], NODE, expr=call("Node", [V("v"), call("Nil", [], LINK), arr([call("Nil", [], LINK), call("Nil", [], LINK)]), var("zero", FN([], INT)), slit("s"), call("Bytes", [lit(1)], BYTES)], NODE)))
        p.add(Fn("probeAll", [("n", INT)], INT, [expr(call("gc", [], NOTHING)), range_("i", lit(0), V("n"), [expr(call("vprobe", [V("i")], INT))]), ret(V("n"))]))
        p.add(Fn("trk", [("x", T_), ("id", INT)], T_, [expr(call("vtrack", [var("x", T_), V("id")], INT)), ret(var("x", T_))], tparams=("T",)))
        p.add(Fn("clos", [("x", T_)], FN([], T_), [ret(lam([], T_, expr=var("x", T_)))], tparams=("T",)))
        p.add(Fn("clos2", [("x", T_), ("k", INT)], FN([], T_), [ret(lam([], T_, body=[if_([(bin_(">", V("k"), lit(0)), [ret(var("x", T_))])]), ret(var("x", T_))]))], tparams=("T",)))
        p.add(Fn("ign", [("x", T_)], INT, expr=lit(3), tparams=("T",)))
        p.add(Fn("same", [("x", T_)], T_, [das("y", var("x", T_)), ret(var("y", T_))], tparams=("T",)))
        p.add(Fn("two", [("x", T_), ("n", INT)], INT, [ret(V("n"))], tparams=("T",)))
        p.add(Fn("mid", [("m", INT), ("x", T_), ("n", INT)], INT, [ret(bin_("+", V("m"), V("n")))], tparams=("T",)))
        p.add(Fn("inside", [("x", T_), ("n", INT)], INT, [das("k", call("probeAll", [V("n")], INT)), ret(V("k"))], tparams=("T",)))
        p.add(Fn("over", [("x", T_), ("y", T_), ("n", INT)], INT, [as_(var("x", T_), var("y", T_)), ret(call("probeAll", [V("n")], INT))], tparams=("T",)))
        p.add(Fn("late", [("x", T_), ("n", INT)], T_, [range_("i", lit(0), lit(1), [das("z", var("x", T_)), if_([(bin_("==", V("i"), lit(0)), [expr(call("probeAll", [V("n")], INT)), ret(var("z", T_))])])]), ret(var("x", T_))], tparams=("T",)))

    def P(self, n): return call("probeAll", [lit(n)], INT)
    def PS(self, n): return expr(self.P(n))

    def fresh(self, b="x"):
        self.n += 1
        return "%s%d" % (b, self.n)

    KINDS = ["node", "link", "both", "arr", "ints", "clos", "closint", "str", "bytes"]
    WRAPS = ["hold", "last", "arr", "arr2", "has", "five", "clos", "clos2", "some", "list", "nodef", "nodea"]

    def obj(self, kind):
        r = self.r
        mk = call("mk", [lit(r.randint(0, 9))], NODE)
        if kind == "node": return mk
        if kind == "link": return call("To", [mk], LINK)
        if kind == "both": return call("Both", [mk, call("Nil", [], LINK)], LINK)
        if kind == "arr": return arr([call("Nil", [], LINK), call("To", [mk], LINK)])
        if kind == "ints": return arr([lit(1), lit(2), lit(3)]) if r.random() < .5 else call("intArray", [lit(4)], ARR(INT))
        if kind == "clos": return call("clos", [mk], FN([], NODE))
        if kind == "closint": return call("clos", [lit(5)], FN([], INT))
        if kind == "str": return call("append", [slit("a"), slit("b")], STRING)
        return call("Bytes", [lit(3)], BYTES)

    def wrap(self, w, e):
        t = e.t
        if w == "hold": return call("Hold", [e, lit(2)], ST("hold", t))
        if w == "last": return call("Last", [lit(1), true(), lit(2), slit("m"), lit(3), e], ST("last", t))
        if w == "arr": return arr([e])
        if w == "arr2": return arr([self.plain(t), self.plain(t), e]) if self.can(t) else arr([e])
        if w == "has": return call("Has", [lit(1), e], EN("may", t))
        if w == "five": return call("Five", [lit(1), lit(2), lit(3), lit(4), e], EN("may", t))
        if w == "clos": return call("clos", [e], FN([], t))
        if w == "clos2": return call("clos2", [e, lit(4)], FN([], t))
        if w == "some": return call("Some", [e], O(t))
        if w == "list": return call("Element", [e, empty(t)], L(t))
        return e

    def can(self, t): return t in (NODE, LINK, STRING, BYTES) or t in (ARR(INT), ARR(LINK))

    def plain(self, t):
        """an untracked value of type t"""
        if t == NODE: return call("mk", [lit(7)], NODE)
        if t == LINK: return call("Nil", [], LINK)
        if t == STRING: return slit("lit")
        if t == BYTES: return call("Bytes", [lit(1)], BYTES)
        if t == INT: return lit(8)
        if t == BOOL: return true()
        if t[0] == "arr": return arr([self.plain(t[1])])
        if t[0] == "fn": return lam([], t[2], expr=self.plain(t[2]))
        if t[1] == "hold": return call("Hold", [self.plain(t[2][0]), lit(1)], t)
        if t[1] == "last": return call("Last", [lit(1), true(), lit(2), slit("m"), lit(3), self.plain(t[2][0])], t)
        if t[1] == "may": return call("Hasnt", [], t, t[2])
        if t[1] == "option": return none(t[2][0])
        if t[1] == "list": return empty(t[2][0])
        raise Exception(t)

    TRACKED = ("some", "list")

    def value(self, kind, wraps, base=0, idx_=None):
        """expression; tracks 1 + len(wraps) objects with numbers base.. (+ idx_ * count)"""
        cnt = 1 + len(wraps)

        def num(k):
            return lit(base + k) if idx_ is None else bin_("+", bin_("*", idx_, lit(cnt)), lit(base + k))
        e = self.obj(kind)
        e = call("trk", [e, num(0)], e.t)
        for k, w in enumerate(wraps, 1):
            e = self.wrap(w, e)
            e = call("trk", [e, num(k)], e.t)
        return e

    DROPS = ["keep", "assign", "if", "else", "range", "while", "each", "match", "param", "over", "lambda", "lamparam", "field", "elem", "expr", "arg", "arg2", "mid", "arrlit",
             "cons", "len", "tern", "rec", "result", "late", "slot", "early", "retloop", "captured", "closarg", "nested", "shadow"]

    def scenario(self, drop, kind, wraps):
        r = self.r
        c_ = 1 + len(wraps)
        E = lambda base=0, ix=None: self.value(kind, wraps, base, ix)
        t = E().t
        X, Y = self.fresh("x"), self.fresh("y")
        x, y = var(X, t), var(Y, t)
        PS, P = self.PS, self.P
        alt = lambda: self.plain(t)
        p = self.p
        if drop == "keep": return [das(X, E()), PS(c_), das(Y, x), as_(x, alt()), PS(c_)]
        if drop == "assign": return [das(X, E()), PS(c_), as_(x, E(c_)), PS(2 * c_), as_(x, alt()), PS(2 * c_)]
        if drop == "if": return [if_([(true(), [das(X, E()), PS(c_)])]), PS(c_)]
        if drop == "else": return [if_([(false(), [das(X, E(c_))]), (bin_(">", lit(1), lit(2)), [])], [das(X, E()), PS(c_)]), PS(2 * c_)]
        if drop == "range": return [range_("i", lit(0), lit(3), [das(X, E(0, V("i"))), PS(3 * c_)]), PS(3 * c_)]
        if drop == "while": return [das("i", lit(0)), while_(bin_("<", V("i"), lit(3)), [das(X, E(0, V("i"))), PS(3 * c_), as_(V("i"), bin_("+", V("i"), lit(1)))]), PS(3 * c_)]
        if drop == "each": return [each(X, arr([E(), E(c_)]), [PS(2 * c_)]), PS(2 * c_)]
        if drop == "match": return [match(call("Some", [E()], O(t)), [("None", [], []), ("Some", [X], [PS(c_)])]), PS(c_)]
        if drop == "param": return [out(call("inside", [E(), lit(c_)], INT)), PS(c_)]
        if drop == "over": return [out(call("over", [E(), E(c_), lit(2 * c_)], INT)), PS(2 * c_)]
        if drop == "lambda": return [das(Y, lam([], INT, body=[das(X, E()), ret(P(c_))])), out(call(Y, [], INT)), PS(c_)]
        if drop == "lamparam": return [das(Y, lam([("q", INT), (X, t)], INT, body=[PS(c_), if_([(bin_(">", V("q"), lit(0)), [as_(x, alt()), ret(P(c_))])]), ret(lit(0))])), out(call(Y, [lit(1), E()], INT)), PS(c_)]
        if drop == "field":
            H = ST("hold", t)
            return [das("h", call("Hold", [E(), lit(1)], H)), PS(c_), as_(fld(var("h", H), "v", t), E(c_)), PS(2 * c_)]
        if drop == "elem":
            A = ARR(t)
            return [das("a", arr([alt(), E(), alt()])), PS(c_), as_(idx(var("a", A), lit(1)), E(c_)), PS(2 * c_)]
        if drop == "expr": return [expr(call("ign", [E()], INT)), PS(c_), expr(E(c_)), PS(2 * c_)]
        if drop == "arg": return [out(call("two", [E(), P(c_)], INT)), PS(c_)]
        if drop == "arg2": return [out(bin_("+", call("ign", [E()], INT), call("two", [E(c_), P(2 * c_)], INT))), PS(2 * c_)]
        if drop == "mid": return [out(call("mid", [P(c_), E(), P(c_)], INT)), PS(c_)]
        if drop == "arrlit": return [das("a", arr([E(), call("late", [E(c_), lit(2 * c_)], t)])), PS(2 * c_), as_(idx(var("a", ARR(t)), lit(0)), idx(var("a", ARR(t)), lit(1))), PS(2 * c_)]
        if drop == "cons": return [das("h", call("Hold", [E(), P(c_)], ST("hold", t))), PS(c_), as_(var("h", ST("hold", t)), call("Hold", [alt(), P(c_)], ST("hold", t))), PS(c_)]
        if drop == "len": return [out(bin_("*", fld(call("Hold", [E(), lit(4)], ST("hold", t)), "n", INT), P(c_))), PS(c_)]
        if drop == "tern": return [das(X, tern(bin_("==", P(1), lit(1)), E(), E(c_))), PS(2 * c_), as_(x, tern(false(), x, alt())), PS(2 * c_)]
        if drop == "rec":
            f = self.fresh("rec")
            p.add(Fn(f, [("n", INT)], INT, [das(X, E(0, V("n"))), if_([(bin_(">", V("n"), lit(0)), [das(Y, call(f, [bin_("-", V("n"), lit(1))], INT)), ret(bin_("+", var(Y, INT), P(3 * c_)))])]), ret(P(3 * c_))]))
            return [out(call(f, [lit(2)], INT)), PS(3 * c_)]
        if drop == "result":
            f = self.fresh("res")
            p.add(Fn(f, [("n", INT)], t, [das(Y, E(c_)), das(X, E()), PS(2 * c_), ret(x)]))
            return [das("k", call(f, [lit(1)], t)), PS(2 * c_), as_(var("k", t), alt()), PS(2 * c_), expr(call(f, [lit(1)], t)), PS(2 * c_)]
        if drop == "late": return [das(X, call("late", [E(), lit(c_)], t)), PS(c_), as_(x, call("late", [alt(), lit(c_)], t)), PS(c_)]
        if drop == "slot": return [if_([(true(), [das(X, E()), das("k", lit(2))])]), if_([(true(), [das(Y, lit(5)), PS(c_), das("z", E(c_)), PS(2 * c_)])]), das("w", lit(1)), PS(2 * c_)]
        if drop == "early":
            f = self.fresh("early")
            p.add(Fn(f, [("n", INT)], INT, [if_([(bin_("==", V("n"), lit(0)), [das(X, E()), ret(lit(1))])]), das(Y, E(c_)), range_("i", lit(0), lit(5), [das("z", E(2 * c_)), if_([(bin_("==", V("i"), V("n")), [ret(P(3 * c_))])])]), ret(lit(2))]))
            return [out(call(f, [lit(0)], INT)), PS(3 * c_), out(call(f, [lit(1)], INT)), PS(3 * c_)]
        if drop == "retloop":
            f = self.fresh("rl")
            p.add(Fn(f, [("n", INT)], t, [while_(true(), [das(X, E(0, V("n"))), match(call("Some", [x], O(t)), [("Some", [Y], [each("q", arr([lit(1), lit(2)]), [if_([(bin_("==", V("q"), lit(2)), [ret(y)])])])]), ("None", [], [])])]), ret(alt())]))
            return [das("k", call(f, [lit(0)], t)), PS(3 * c_), as_(var("k", t), call(f, [lit(1)], t)), PS(3 * c_), expr(call(f, [lit(2)], t)), PS(3 * c_)]
        if drop == "captured":
            return [das(X, E()), das("f", lam([], t, expr=x)), as_(x, alt()), PS(c_), das("g", var("f", FN([], t))), as_(var("f", FN([], t)), lam([], t, expr=x)), PS(c_), as_(var("g", FN([], t)), var("f", FN([], t))), PS(c_)]
        if drop == "closarg":
            return [das("f", lam([(X, t)], FN([], t), body=[ret(lam([], t, expr=x))])), das("g", call("f", [E()], FN([], t))), PS(c_), expr(call("ign", [call("g", [], t)], INT)), PS(c_), as_(var("g", FN([], t)), call("f", [E(c_)], FN([], t))), PS(2 * c_)]
        if drop == "nested": return [range_("i", lit(0), lit(2), [das(X, E(0, V("i"))), if_([(bin_("==", V("i"), lit(0)), [each("q", arr([x]), [match(call("Some", [var("q", t)], O(t)), [("Some", [Y], [PS(2 * c_)]), ("None", [], [])])])])], [PS(2 * c_)])]), PS(2 * c_)]
        if drop == "shadow": return [das(X, E()), if_([(true(), [das(X, E(c_)), PS(2 * c_), as_(x, alt()), PS(2 * c_)])]), PS(2 * c_), as_(x, alt()), PS(2 * c_)]
        raise Exception(drop)

    def cycle(self):
        """linked nodes with cycles through enums, arrays and function values, dropped step by step"""
        r = self.r
        k = r.randint(2, 4)
        ns = ["n%d" % j for j in range(k)]
        N_ = lambda j: var(ns[j], NODE)
        ss = [das(ns[j], call("trk", [call("mk", [lit(j)], NODE), lit(j)], NODE)) for j in range(k)]
        n = k
        for _ in range(r.randint(2, 5)):
            a, b, q = r.randrange(k), r.randrange(k), r.randrange(5)
            if q == 0: ss.append(as_(fld(N_(a), "l", LINK), call("trk", [call("To", [N_(b)], LINK), lit(n)], LINK))); n += 1
            elif q == 1: ss.append(as_(idx(fld(N_(a), "a", ARR(LINK)), lit(r.randrange(2))), call("trk", [call("To", [N_(b)], LINK), lit(n)], LINK))); n += 1
            elif q == 2: ss.append(as_(fld(N_(a), "f", FN([], INT)), call("trk", [lam([], INT, expr=fld(N_(b), "v", INT)), lit(n)], FN([], INT)))); n += 1
            elif q == 3: ss.append(as_(fld(N_(a), "l", LINK), call("Both", [N_(b), fld(N_(r.randrange(k)), "l", LINK)], LINK)))
            else: ss.append(as_(fld(N_(a), "a", ARR(LINK)), call("trk", [arr([call("To", [N_(b)], LINK), fld(N_(b), "l", LINK)]), lit(n)], ARR(LINK)))); n += 1
        order = list(range(k))
        r.shuffle(order)
        ss.append(self.PS(n))
        for j in order:
            ss += [as_(N_(j), N_(r.randrange(k)) if r.random() < .3 else call("mk", [lit(9)], NODE)), self.PS(n)]
        if r.random() < .5: return [if_([(true(), ss)]), self.PS(n)]
        return ss

    def case(self, body):
        nm = "case%d" % len(self.entries)
        self.p.add(Fn(nm, [], NOTHING, body))
        self.entries.append(nm)

    def file(self):
        f = File(self.p, self.entries, externs=[VTRACK, VPROBE])
        f.hidden = HIDDEN
        return f


def heap_files(ctx, r, quick, thorough, cyc=(40, 400)):
    combos = [(d, k, ()) for d in Heap.DROPS for k in Heap.KINDS]
    combos += [(d, k, (w,)) for d in Heap.DROPS for k in Heap.KINDS for w in Heap.WRAPS[:10]]
    base = combos[:]
    r.shuffle(base)
    n = ctx.scale(quick, thorough)
    pick = base[:n]
    for _ in range(n // 4):
        pick.append((r.choice(Heap.DROPS), r.choice(Heap.KINDS), (r.choice(Heap.WRAPS[:10]), r.choice(Heap.WRAPS[:10]))))
    ctx.count("heap_combinations", len(pick))
    files = []
    for i in range(0, len(pick), 40):
        h = Heap(r)
        for d, k, w in pick[i:i + 40]: h.case(h.scenario(d, k, w))
        files.append(h.file())
    n = ctx.scale(*cyc)
    for i in range(0, n, 40):
        h = Heap(r)
        for _ in range(min(40, n - i)): h.case(h.cycle())
        files.append(h.file())
    return files


def c17(ctx):
    r = random.Random(ctx.seed * 7919 + 17)
    check_core(ctx, heap_files(ctx, r, 1600, 4000), what="reclamation", probe="dead")
