"""Systematic forms, fifth part: assignments between every two places a value can be kept in (C08, C10), overload sets that mix
generic functions and others (C07)."""
import itertools
from clara import *
from gen import *
from forms import *
import forms3

S = STRING


# ---------------------------------------------------------------------------------------------- places (C08, C10)
def place_files(r, full=False):
    """L = R and L = R op c for every two places L and R of a value, with the same and with different objects and indexes in between"""
    from core import File
    Q = lambda t: ST("inn", t)                      # inn{x, n, y}
    P = lambda t: ST("mid", t)                      # mid{n, q: inn, arr: []t, x: t, qs: []inn, y: t}

    def places(t, cap):
        """name -> expression; two objects (0, 1), two indexes, two fields each"""
        A, p = ARR(t), P(t)
        o = lambda k: var("o%d" % k, p)
        a = lambda k: var("a%d" % k, A)
        os = var("os", ARR(p))
        m = var("m", ARR(A))
        ix = {0: lambda: lit(0), 1: lambda: V("one")}
        res = {}
        for k in (0, 1):
            if not cap: res["v%d" % k] = lambda k=k: var("v%d" % k, t)
            for f in ("x", "y"):
                res["o%d.%s" % (k, f)] = lambda k=k, f=f: fld(o(k), f, t)
                res["o%d.q.%s" % (k, f)] = lambda k=k, f=f: fld(fld(o(k), "q", Q(t)), f, t)
                res["os%d.%s" % (k, f)] = lambda k=k, f=f: fld(idx(os, ix[k]()), f, t)
                res["os%d.q.%s" % (k, f)] = lambda k=k, f=f: fld(fld(idx(os, ix[k]()), "q", Q(t)), f, t)
                res["f%d.%s" % (k, f)] = lambda k=k, f=f: fld(call("get" + tn(t), [os, lit(k)], p), f, t)
                res["f%d.q.%s" % (k, f)] = lambda k=k, f=f: fld(fld(call("get" + tn(t), [os, lit(k)], p), "q", Q(t)), f, t)
            for i in (0, 1):
                res["a%d[%d]" % (k, i)] = lambda k=k, i=i: idx(a(k), ix[i]())
                res["m%d[%d]" % (k, i)] = lambda k=k, i=i: idx(idx(m, ix[k]()), ix[i]())
                res["o%d.arr[%d]" % (k, i)] = lambda k=k, i=i: idx(fld(o(k), "arr", A), ix[i]())
                res["os%d.arr[%d]" % (k, i)] = lambda k=k, i=i: idx(fld(idx(os, ix[k]()), "arr", A), ix[i]())
                res["f%d.arr[%d]" % (k, i)] = lambda k=k, i=i: idx(fld(call("get" + tn(t), [os, lit(k)], p), "arr", A), ix[i]())
                for f in ("x", "y"):
                    res["o%d.qs[%d].%s" % (k, i, f)] = lambda k=k, i=i, f=f: fld(idx(fld(o(k), "qs", ARR(Q(t))), ix[i]()), f, t)
                    res["os%d.qs[%d].%s" % (k, i, f)] = lambda k=k, i=i, f=f: fld(idx(fld(idx(os, ix[k]()), "qs", ARR(Q(t))), ix[i]()), f, t)
        return res

    def tn(t): return {"int": "I", "string": "S"}[t[0]]

    def val(t, n): return lit(n) if t == INT else slit("s%d" % n)

    def head(t):
        n = itertools.count(1)
        v = lambda: val(t, next(n))
        q = lambda: call("Inn", [v(), lit(next(n)), v()], Q(t))
        p = lambda: call("Mid", [lit(next(n)), q(), arr([v(), v()]), v(), arr([q(), q()]), v()], P(t))
        # os has two objects of its own: a confusion of bases shows
        return [das("one", lit(1)), das("v0", v()), das("v1", v()), das("o0", p()), das("o1", p()), das("a0", arr([v(), v()])), das("a1", arr([v(), v()])),
                das("os", arr([p(), p()])), das("m", arr([arr([v(), v()]), arr([v(), v()])]))]

    def dump(t):
        p, A = P(t), ARR(t)
        return [out(var("v0", t)), out(var("v1", t))] + [expr(call("dumpa", [var("a%d" % k, A)], NOTHING)) for k in (0, 1)] + [expr(call("dump", [var("o%d" % k, p)], NOTHING)) for k in (0, 1)] + \
            [each("ob", var("os", ARR(p)), [expr(call("dump", [var("ob", p)], NOTHING))]), each("ar", var("m", ARR(A)), [expr(call("dumpa", [var("ar", A)], NOTHING))])]

    def join(t, e, k): return bin_("+", e, lit(k)) if t == INT else call("append", [e, slit("+%d" % k)], S)
    T = PAR("T")
    files = []
    for t in (INT, S):
        names = list(places(t, False))
        kind = lambda n: n.translate(str.maketrans("", "", "01"))
        byk = {}
        for n in names: byk.setdefault(kind(n).replace(".y", ".x"), []).append(n)
        pairs = []
        for a, b in itertools.product(byk, byk):
            opts = [(x, y) for x in byk[a] for y in byk[b] if x != y]
            near = [(x, y) for x, y in opts if kind(x) == kind(y)]        # same form, other object or index: easily confused
            pairs += r.sample(near, min(len(near), len(near) if full else 3 if t == INT else 2)) + r.sample(opts, min(len(opts), 6 if full else 1))
        pairs += [(x, x) for x in names]
        r.shuffle(pairs)
        cur = None
        for x, y in pairs:
            if cur is None or len(cur[1]) >= 24:
                p = Prog()
                p.add(Struct("inn", [("x", T), ("n", INT), ("y", T)], ("T",)))
                p.add(Struct("mid", [("n", INT), ("q", ST("inn", T)), ("arr", ARR(T)), ("x", T), ("qs", ARR(ST("inn", T))), ("y", T)], ("T",)))
                p.add(Fn("get" + tn(t), [("os", ARR(P(t))), ("k", INT)], P(t), [out(slit("get")), ret(idx(var("os", ARR(P(t))), V("k")))]))
                q = lambda e: [out(fld(e, "x", t)), out(fld(e, "n", INT)), out(fld(e, "y", t))]
                o = var("o", P(t))
                p.add(Fn("dumpa", [("a", ARR(t))], NOTHING, [each("e", var("a", ARR(t)), [out(var("e", t))])]))
                p.add(Fn("dump", [("o", P(t))], NOTHING, [out(fld(o, "n", INT)), out(fld(o, "x", t)), out(fld(o, "y", t)), expr(call("dumpa", [fld(o, "arr", ARR(t))], NOTHING))] + q(fld(o, "q", Q(t))) + [each("e", fld(o, "qs", ARR(Q(t))), q(var("e", Q(t))))]))
                cur = (p, [])
                files.append(cur)
            p, es = cur
            cap = r.random() < .15 and x[0] != "v" and y[0] != "v"
            pl = places(t, cap)
            e = pl[y]()
            f = r.random()
            if f < .3: e = join(t, e, r.randint(1, 9))
            elif f < .45: e = join(t, e, 1) if t == S else bin_("+", e, pl[r.choice(list(pl))]())
            elif f < .55: e = tern(bin_("==", V("one"), lit(r.randint(0, 1))), pl[r.choice(list(pl))](), e)
            st = [as_(pl[x](), e)]
            if r.random() < .25: st.append(as_(pl[y](), pl[x]()))
            if cap: st = [das("go", lam([], NOTHING, body=st)), expr(call("go", [], NOTHING))]
            elif r.random() < .15: st = [range_("rr", lit(0), lit(2), st)]
            name = "case%d" % len(es)
            p.add(Fn(name, [], NOTHING, head(t) + st + dump(t)))
            es.append(name)
    return [File(p, es) for p, es in files]


# ---------------------------------------------------------------------------------------------- generic and plain overloads (C07)
def mixed_overloads(r, n):
    """overload sets that mix generic functions and others; when several accept a call it is the one declared first"""
    from core import File
    from core_a import add_cases
    T, U = PAR("T"), PAR("U")
    B = lambda a, b: ST("bi", a, b)
    conc = [INT, S, BOOL, BYTES, ST("pt"), EN("hue"), ARR(INT), ARR(S), ARR(ARR(INT)), FN([INT], INT), FN([S], INT), FN([INT, INT], INT), B(INT, S), B(S, S), ARR(B(INT, INT))]
    gens = [T, ARR(T), ARR(ARR(T)), FN([T], INT), FN([INT], T), FN([T], T), FN([T, U], T), B(T, U), B(T, T), B(INT, T), B(T, S), ARR(B(T, INT)), U]

    def value(t):
        k = t[0]
        if t == INT: return lit(r.randint(0, 99))
        if t == S: return slit(r.choice(["u", "vv"]))
        if t == BOOL: return blit(r.random() < .5)
        if t == BYTES: return call("Bytes", [lit(3)], BYTES)
        if k == "arr": return arr([value(t[1]) for _ in range(r.randint(1, 2))])
        if k == "fn": return lam([("z%d" % i, x) for i, x in enumerate(t[1])], t[2], expr=value(t[2]))
        if k == "en": return r.choice([call("Red", [], t), call("Blue", [lit(1)], t)])
        if t[1] == "pt": return call("Pt", [lit(1)], t)
        return call("Bi", [value(t[2][0]), value(t[2][1])], t)

    def pars(t):
        if t[0] == "par": return [t[1]]
        res = []
        for x in t[1:]:
            if isinstance(x, tuple):
                for y in ([x] if x and isinstance(x[0], str) else x): res += pars(y)
        return res

    def inst(t, b): return subst(t, b)

    def fits(ps, ts):
        b = {}

        def go(t, p):
            if p[0] == "par":
                if p[1] in b: return b[p[1]] == t
                b[p[1]] = t
                return True
            if t[0] != p[0]: return False
            if p[0] == "arr": return go(t[1], p[1])
            if p[0] == "fn": return len(t[1]) == len(p[1]) and all(go(a, c) for a, c in zip(t[1], p[1])) and go(t[2], p[2])
            if p[0] in ("st", "en"): return t[1] == p[1] and all(go(a, c) for a, c in zip(t[2], p[2]))
            return True
        return len(ps) == len(ts) and all(go(t, p) for t, p in zip(ts, ps))
    files = []
    for k in range(n):
        p = Prog()
        decls = [[Struct("pt", [("x", INT)])], [Enum("hue", [("Red", []), ("Blue", [("k", INT)])])], [Struct("bi", [("l", PAR("A")), ("r", PAR("B"))], ("A", "B"))]]
        bodies = []
        for o in range(14):
            name = "mix%d" % o
            m = r.choice([1, 1, 1, 2, 2, 3])
            sigs, seen = [], set()
            for _ in range(40):
                if len(sigs) >= r.choice([2, 2, 3, 4, 5]): break
                sg = tuple(r.choice(gens if r.random() < .5 else conc) for _ in range(m if r.random() < .8 else r.randint(1, 3)))
                key = tuple(str(forms3.erase(t)).replace("'U'", "'T'") for t in sg)
                if key in seen: continue
                seen.add(key)
                sigs.append(sg)
            fs = []
            for i, sg in enumerate(sigs):
                tps = tuple(sorted({q for t in sg for q in pars(t)}))
                fs.append(Fn(name, [("p%d" % j, t) for j, t in enumerate(sg)], INT, [out(lit(100 * o + i)), ret(lit(i))], tparams=tps))
            decls.append(fs)
            ss = []
            pick = []
            for sg in sigs:
                for _ in range(2):
                    b = {q: r.choice(conc) for t in sg for q in pars(t)}
                    pick.append([inst(t, b) for t in sg])
            for _ in range(6): pick.append([r.choice(conc) for _ in range(m)])
            for ts in pick:
                if not any(fits(sg, ts) for sg in sigs): continue
                args = [value(t) for t in ts]
                if r.random() < .3:
                    nm = "w%d" % len(ss)
                    ss += [das(nm, args[0]), out(dot(var(nm, ts[0]), name, args[1:], INT) if r.random() < .5 else call(name, [var(nm, ts[0])] + args[1:], INT))]
                else: ss.append(out(call(name, args, INT)))
            bodies.append(ss)
        r.shuffle(decls)
        # members of one set stay in their order; anything may lie between them
        flat = []
        while any(decls):
            d = r.choice([x for x in decls if x])
            flat.append(d.pop(0))
        for d in flat: p.add(d)
        files.append(File(p, add_cases(p, bodies)))
    return files
