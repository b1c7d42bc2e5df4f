"""Programs for the declaration rules (C26): scopes, redeclarations, return paths, match cases, limits."""
import itertools, random
from judge import Item
from tygen import unit

PRE = """struct point { x: int y: int }
struct box«T» { v: T }
enum color { Red() Green(n: int) Blue(a: int, b: int) }
enum opt«T» { Som(v: T) Non() }
enum one { Only(a: int) }
enum other { Or1() Or2(n: int) }
enum four«A,B» { F1(a: A) F2(b: B) F3(a: A, b: B) F4() }
fn nop() { }
fn take(a: int) { }
fn bump(a: int) int = a + 1
fn run(f: fn()) { f() }
fn twice(f: fn(int) int, a: int) int = f(f(a))
"""
B = "b0: bool, c0: color, o0: opt«int», z0: int"

# places with a scope of their own: $ stands for statements
SCOPES = {
    "if": "if b0 { $ }", "else": "if b0 { nop() } else { $ }", "elseif": "if b0 { nop() } elseif z0 == 1 { $ }", "elseif2": "if b0 { nop() } elseif z0 == 1 { nop() } elseif b0 { $ } else { nop() }",
    "while": "while b0 { $ }", "range": "for w9 in 0..2 { $ }", "each": "for w9 in [1, 2] { $ }",
    "case": "match c0 { case Red(): $ case Green(q9): nop() case Blue(q9, q8): nop() }", "caselast": "match o0 { case Som(q9): nop() case Non(): $ }",
    "lam": "run(fn() { $ })", "lamval": "l9 := fn() { $ }", "lamarg": "take(twice(fn(u9: int) int { $ return u9 }, 1))", "lamlam": "run(fn() { run(fn() { $ }) })", "lamarr": "l8 := [fn() { $ }, nop]",
}
# places that declare x themselves
BINDERS = {
    "range": "for x in 0..2 { $ }", "each": "for x in [1, 2] { $ }", "rangeown": "for x in 0..x { $ }", "eachown": "for x in [x, 1] { $ }",
    "case1": "match c0 { case Red(): nop() case Green(x): $ case Blue(q9, q8): nop() }", "case2": "match c0 { case Blue(q9, x): $ case Green(q9): nop() case Red(): nop() }",
    "case2b": "match c0 { case Blue(x, q9): $ case Green(q9): nop() case Red(): nop() }", "gcase": "match o0 { case Som(x): $ case Non(): nop() }", "sibling": "match o0 { case Som(x): nop() case Non(): $ }",
    "sibling2": "match c0 { case Red(): $ case Green(x): nop() case Blue(q9, x): $ }",
    "lam": "l9 := fn(x: int) { $ }", "lam2": "l9 := fn(q9: int, x: int) int { $ return 1 }", "lamexpr": "l9 := fn(x: int) int = x + 1", "lamarg": "take(twice(fn(x: int) int { $ return x }, 1))",
    "lamnest": "l9 := fn(x: int) { run(fn() { $ }) }", "lamnest2": "l9 := fn(x: int) fn(int) int { return fn(x: int) int { $ return x } }",
}
LEAVES = ["x := 1", "take(x)", "x = 2", "x := x + 1", "y := x", "take(y)", "x := fn() int = x", "take(fn() int { return x }())", "x := [1]\n take(x[0])", "bump := 5", "take(bump(1))", "take(bump)", "bump := fn(a: int) int = a",
          "run(fn() { x = 3 })", "x := Point(1, 2)\n take(x.x)", "nop := 3", "nop()", "Point := 3", "p := Point(1, 2)", "point := 4", "take(point)", "l9 := 1", "z0 := 2", "z0 = 3", "z0 := z0"]


def scope_units(rng, n):
    r = []
    kinds = list(SCOPES.items()) + list(BINDERS.items())
    core = LEAVES[:4]
    seqs = [[]] + [[a] for a in core] + [[a, b] for a in core[:3] for b in core[:3]]

    def emit(ss, what):
        r.append(unit("fn t(%s) {\n%s\n}" % (B, "\n ".join(ss)), what))
    for k, c in kinds:
        for before in ([], ["x := 1"]):
            for inner in seqs:
                for after in ([], ["take(x)"], ["x := 1"]):
                    if rng.random() < 0.55: continue
                    emit(before + [c.replace("$", "\n".join(inner))] + after, "%s | %s { %s } | %s" % (before, k, inner, after))
    for a in LEAVES:
        for b in LEAVES:
            emit([a, b], "%s; %s" % (a, b))

    def tree(d):
        ss = []
        for _ in range(rng.randint(1, 3)):
            if d > 0 and rng.random() < 0.55:
                k, c = rng.choice(kinds)
                ss.append(c.replace("$", "\n".join(tree(d - 1))))
            else:
                ss.append(rng.choice(LEAVES[:8] if rng.random() < 0.7 else LEAVES))
        return ss
    for _ in range(n):
        x = tree(3)
        if rng.random() < 0.6: x = ["x := 7"] + x
        emit(x, "; ".join(x))
    # parameters
    for a, b in itertools.product(["x: int", "x: int, y: int", "y: int, x: int"], ["x := 1", "take(x)", "y := 1", "take(y)", "take(w)", "x = 1", "if x == 1 { x := 2 take(x) }", "run(fn() { x := 1 take(x) })", "for x in 0..1 { }",
                                                                                  "l := fn(x: int) int = x", "match Som(1) { case Som(x): take(x) case Non(): nop() }"]):
        r.append(unit("fn t(%s) {\n%s\n}" % (a, b), "parameters %s; %s" % (a, b)))
        r.append(unit("fn t«T»(%s, g: T) {\n%s\n}" % (a, b), "generic; parameters %s; %s" % (a, b)))
        r.append(unit("fn t(q: int) {\nl := fn(%s) {\n%s\n}\n}" % (a, b), "function value; parameters %s; %s" % (a, b)))
    for e in ["x", "y", "x + q", "fn() int = x", "(fn(x: int) int = x)", "q", "bump", "nope", "nope(1)", "x.nope()", "t(1)"]:
        r.append(unit("fn t(x: int) int = %s" % e, "expression body %s" % e))
        r.append(unit("fn t(x: int) { l := fn(y: int) int = %s }" % e, "function value with expression body %s" % e))
    # names of one function are unknown in another
    for a in ["v := 1", "for v in 0..2 { }", "match o0 { case Som(v): nop() case Non(): nop() }", "l := fn(v: int) int = v"]:
        r.append(unit("fn t(%s, v1: int) { %s }\nfn use(a: int) int { return v }" % (B, a), "a local of another function: %s" % a))
    r.append(unit("fn t(v1: int) { }\nfn use(a: int) int { return v1 }", "a parameter of another function"))
    r.append(unit("fn t«T»(v1: T) { }\nfn use(a: T) { }", "a type parameter of another function"))
    return r


# ---------------------------------------------------------------------------------------------------- return paths
def ret_units(rng, n):
    leaf = ["return 1", "nop()", ""]

    def forms(a, b, c):
        return ["if b0 { %s }" % a, "if b0 { %s } else { %s }" % (a, b), "if b0 { %s } elseif z0 == 2 { %s }" % (a, b), "if b0 { %s } elseif z0 == 2 { %s } else { %s }" % (a, b, c),
                "if b0 { %s } elseif z0 == 2 { %s } elseif z0 == 3 { %s } else { return 4 }" % (a, b, c),
                "while b0 { %s }" % a, "while true { %s }" % a, "for i9 in 0..2 { %s }" % a, "for i9 in [1] { %s }" % a, "match o0 { case Som(q9): %s case Non(): %s }" % (a, b),
                "match c0 { case Red(): %s case Green(q9): %s case Blue(q9, q8): %s }" % (a, b, c), "l9 := fn() int { %s return 1 }" % a, "run(fn() { %s })" % ("nop()" if "return" in a else a),
                "%s\n%s" % (a, b)]

    def rnd(d):
        if d == 0: return rng.choice(leaf)
        return rng.choice(forms(rnd(d - 1), rnd(rng.randrange(d)), rnd(rng.randrange(d))))
    bodies = set(leaf)
    for a in leaf:
        for b in leaf:
            for c in leaf:
                bodies.update(forms(a, b, c))
    one = sorted(bodies)
    for x in one:
        bodies.update([x + "\nreturn 2", "nop()\n" + x, x + "\nnop()", "return 3\n" + x])
    bodies = sorted(bodies)
    for _ in range(n):
        bodies.append(rnd(rng.randint(2, 3)))
    r = []
    for b in bodies:
        k = rng.random()
        if k < 0.6: t = "fn t(%s) int {\n%s\n}" % (B, b)
        elif k < 0.7: t = "fn t«T»(%s, g: T) int {\n%s\n}" % (B, b)
        elif k < 0.9: t = "fn t(%s) { l := fn() int {\n%s\n}\n}" % (B, b)
        else: t = "fn t(%s) fn() int { return fn() int {\n%s\n}\n}" % (B, b)
        r.append(unit(t, "body " + b))
    return r


# ---------------------------------------------------------------------------------------------------- match
ENUMS = {"color": ("color", {"Red": 0, "Green": 1, "Blue": 2}), "opt": ("opt«int»", {"Som": 1, "Non": 0}), "one": ("one", {"Only": 1}), "other": ("other", {"Or1": 0, "Or2": 1}),
         "four": ("four«int,bool»", {"F1": 1, "F2": 1, "F3": 2, "F4": 0})}


def case(n, k): return "case %s(%s): nop()" % (n, ", ".join("v%d" % i for i in range(k)))


def match_units(rng, n):
    r = []

    def emit(en, cs, what):
        t = ENUMS[en][0]
        f = rng.choice(["fn t(e: %s) { match e { %%s } }", "fn t(e: %s) { l := fn() { match e { %%s } } }", "fn t(es: []%s) { for e in es { match e { %%s } } }",
                        "fn t«T»(e: %s, g: T) { if 1 == 1 { match e { %%s } } }", "fn t(e: %s, b0: bool) { match b0 ? e : e { %%s } }"]) % t
        r.append(unit(f % "\n".join(cs), what))
    allc = {c: k for _, cs in ENUMS.values() for c, k in cs.items()}
    for en, (_, cs) in ENUMS.items():
        names = list(cs)
        for p in itertools.permutations(names):
            emit(en, [case(c, cs[c]) for c in p], "match %s with %s" % (en, p))
        for k in range(len(names)):
            for p in itertools.combinations(names, k):
                emit(en, [case(c, cs[c]) for c in p], "match %s with only %s" % (en, p))
        for c in names:      # one twice
            for at in range(len(names) + 1):
                p = list(names)
                p.insert(at, c)
                emit(en, [case(x, cs[x]) for x in p], "match %s with %s" % (en, p))
                q = [x for x in p]
                m = rng.choice([x for x in names if x != c] or [c])
                if m in q: q.remove(m)
                emit(en, [case(x, cs[x]) for x in q], "match %s with %s" % (en, q))
        for f in list(allc) + ["Nope", "nop", "Point", "Some", "None", "bump", "Box", "e", "color", "int", "T", "opt", "point", "main", "run"]:      # one of another enum, besides or instead
            if f in cs: continue
            for at in range(len(names) + 1):
                p = list(names)
                if rng.random() < 0.5 and at < len(names): p[at] = f
                else: p.insert(at, f)
                emit(en, [case(x, allc.get(x, rng.randrange(2))) for x in p], "match %s with %s" % (en, p))
        for c in names:      # number of variables
            for k in range(0, 5):
                emit(en, [case(x, k if x == c else cs[x]) for x in names], "match %s with %d variables in %s" % (en, k, c))
        for c in names:
            if cs[c] > 1:
                emit(en, [case(x, cs[x]) if x != c else "case %s(v, v): nop()" % x for x in names], "the same variable twice in %s" % c)
    for _ in range(n):
        en = rng.choice(list(ENUMS))
        p = [rng.choice(list(ENUMS[en][1]) * 4 + list(allc)) for _ in range(rng.randint(1, 5))]
        emit(en, [case(x, allc[x] if rng.random() < 0.95 else rng.randrange(3)) for x in p], "match %s with %s" % (en, p))
    for t in ["int", "bool", "string", "point", "[]color", "fn() color", "box«color»"]:
        r.append(unit("fn t(e: %s) { match e { case Red(): nop() case Green(n): nop() case Blue(a, b): nop() } }" % t, "match on %s" % t))
    return r


# ---------------------------------------------------------------------------------------------------- limits
def limit_units(rng):
    r = []
    for k in range(0, 11):
        ps = ", ".join("a%d: int" % i for i in range(k))
        ty = ",".join(["int"] * k)
        as_ = ", ".join(str(i) for i in range(k))
        r.append(unit("fn t(%s) { }\nfn use(z: int) { t(%s) }" % (ps, as_), "%d parameters" % k))
        r.append(unit("fn t«T»(%s) { }" % ps, "generic, %d parameters" % k))
        r.append(unit("fn t(%s) int = 1" % ps, "expression body, %d parameters" % k))
        r.append(unit("struct tt%d { %s }\nfn t(z: int) { v := Tt%d(%s) }" % (k, ps.replace(",", ""), k, as_), "struct with %d fields" % k))
        r.append(unit("enum te%d { Te%dA() Te%dB(%s) }\nfn t(z: int) { v := Te%dB(%s) }" % (k, k, k, ps, k, as_), "constructor with %d parameters" % k))
        r.append(unit("fn t(z: int) { l := fn(%s) int = 1 }" % ps, "function value with %d parameters" % k))
        r.append(unit("fn t(z: int) { l := fn(%s) { nop() } }" % ps, "function value with %d parameters, block" % k))
        r.append(unit("fn t(f: fn(%s) int) { v := f(%s) }" % (ty, as_), "call of a variable with %d arguments" % k))
        r.append(unit("fn t(f: []fn(%s) int) { v := f[0](%s) }" % (ty, as_), "call of an element with %d arguments" % k))
        cap = "\n".join("v%d := %d" % (i, i) for i in range(k))
        use = " + ".join(["1"] + ["v%d" % i for i in range(k)])
        r.append(unit("fn t(z: int) { %s\n l := fn() int = %s }" % (cap, use), "%d captured variables" % k))
        r.append(unit("fn t(z: int) { %s\n l := fn(q: int) int { return %s } }" % (cap, use), "%d captured variables" % k))
        r.append(unit("fn t(z: int) { %s\n l := fn(q: int) fn() int = fn() int = %s }" % (cap, use), "%d captured variables, nested" % k))
        r.append(unit("fn t(z: int) { %s\n l := fn() { %s } }" % (cap, "\n".join("v%d = 1" % i for i in range(k))), "%d captured and assigned variables" % k))
        if k: r.append(unit("fn t(%s) { l := fn() int = %s }" % (ps, " + ".join("a%d" % i for i in range(k))), "%d captured parameters" % k))
        if k > 1:
            r.append(unit("fn t(z: int) { %s\n l := fn() int = %s }" % (cap, use.replace("v1", "v0")), "%d variables, one captured twice" % k))
            r.append(unit("fn t(%s) { }\nfn use(z: int) { 0.t(%s) }" % (ps, ", ".join(str(i) for i in range(1, k))), "%d parameters, method call" % k))
    return r


# ---------------------------------------------------------------------------------------------------- types and top level declarations
TYPES = ["int", "bool", "string", "bytes", "[]int", "[]bool", "[][]int", "point", "color", "opt«int»", "opt«bool»", "opt«opt«int»»", "box«int»", "fn(int) int", "fn(bool) int", "fn(int,int) int", "fn()", "[]fn(int) int",
         "four«int,bool»", "four«bool,int»", "[]point", "[]opt«int»"]
BADTYPES = ["nope", "[]nope", "opt«nope»", "fn(nope) int", "fn(int) nope", "opt«int,int»", "point«int»", "int«int»", "fn(fn(nope))", "[][]nope", "four«int»", "four«int,nope»", "four«int,int,int»", "fn() []nope", "box«box«nope»»",
            "Point", "Red", "nop", "T"]


def type_units(rng):
    """types that do not exist, everywhere a type may stand"""
    r, n = [], 0
    for t in BADTYPES + TYPES[:6] + ["opt«int»", "fn(int) opt«point»"]:
        for f in ["fn t(a: %s) { }", "fn t(z: int, a: %s) { }", "fn t«U»(a: %s) { }", "struct tt# { a: %s }", "struct tt#«U» { z: U a: %s z2: int }", "enum tt# { Ta#(a: %s) }", "enum tt#«U» { Ta#() Tb#(z: U, a: %s) }",
                  "fn t(z: int) { l := fn(a: %s) { nop() } }", "fn t(z: int) { l := fn(z: int, a: %s) int = 1 }", "fn t(f: fn(%s)) { }", "fn t(z: int) { v := Non«%s»() }", "fn t(z: int) { take(fn() int { v := Non«%s»() return 1 }()) }",
                  "fn t(z: int) %s { return t(z) }", "fn t(z: int) %s = t(z)", "fn t(z: int) { l := fn(f: fn(int) %s) { nop() } }", "fn t(z: int) { v := z.t9«%s»() }"]:
            if rng.random() < 0.25: continue
            n += 1
            r.append(unit(f.replace("#", "%d" % n) % t, "type %s in %s" % (t, f)))
    return r


def dup_units(rng):
    r, n = [], 0
    for k in (2, 3, 4, 5):
        for i, j in itertools.combinations(range(k), 2):
            for same in (True, False):
                n += 1
                ns = ["p%d" % x for x in range(k)]
                ns[j] = ns[i] if same else ns[j]
                ts = [rng.choice(["int", "bool", "opt«int»"]) for _ in ns]
                ps = ", ".join("%s: %s" % x for x in zip(ns, ts))
                for f in ["fn t(%s) { }", "fn t(%s) int = 1", "fn t«T»(%s) { }", "struct dt# { %s }", "struct dt#«T» { %s }", "enum dt# { Dt#(%s) }", "enum dt#«T» { Dt#() Du#(%s) }", "fn t(z: int) { l := fn(%s) { nop() } }", "fn t(z: int) { l := fn(%s) int = 1 }"]:
                    if rng.random() < 0.5: continue
                    r.append(unit(f.replace("#", "%d" % n) % (ps.replace(",", "") if "struct" in f else ps), "%s with %s" % (f, ps)))
                ns = ["T%d" % x for x in range(k)]
                ns[j] = ns[i] if same else ns[j]
                for f in ["fn t«%s»(z: int) { }", "struct du#«%s» { z: int }", "enum du#«%s» { Dv#() }"]:
                    if rng.random() < 0.5: continue
                    r.append(unit(f.replace("#", "%d" % n) % ",".join(ns), "%s with %s" % (f, ns)))
                if k <= 5:
                    ns = ["Dc%d_%d" % (n, x) for x in range(k)]
                    ns[j] = ns[i] if same else ns[j]
                    r.append(unit("enum dw%d { %s }" % (n, " ".join("%s(%s)" % (x, rng.choice(["", "a: int"])) for x in ns)), "constructors %s" % ns))
    return r


def overload_units(rng, n):
    """two functions of one name"""
    r, k = [], 0
    sigs = [[a] for a in TYPES] + [[]] + [[rng.choice(TYPES), rng.choice(TYPES)] for _ in range(12)]
    pairs = [(a, b) for a in sigs for b in sigs if a == b] + [(rng.choice(sigs), rng.choice(sigs)) for _ in range(n)]
    for a, b in pairs:
        k += 1
        p = [", ".join("p%d: %s" % (i, t) for i, t in enumerate(x)) for x in (a, b)]
        mid = rng.choice(["", "fn ovm%d(z: int) { }\n" % k, "fn ov%d(z: int, y: int, x: int, w: fn()) { }\n" % k])
        r.append(unit("fn ov%d(%s) { }\n%sfn ov%d(%s)%s" % (k, p[0], mid, k, p[1], rng.choice([" { }", " int { return 1 }", " int = 2"])), "overloads %s / %s" % (a, b)))
        if a == b and len(a) == 1 or rng.random() < 0.2:
            q = p[1].replace("p0", "q0").replace("p1", "q1")
            r.append(unit("fn ow%d(%s) { }\nfn ow%d(%s) { }" % (k, p[0], k, q), "overloads with other parameter names %s / %s" % (a, b)))
    return r


def pair_items(rng):
    """every two declarations that share a name"""
    ds = {"struct": "struct s { a: int }", "struct2": "struct s { b: string c: int }", "gstruct": "struct s«T» { a: T }", "enum": "enum s { E1() }", "genum": "enum s«T» { E2(t: T) }", "fn": "fn s() { }", "fnint": "fn s(a: int) { }",
          "fnstr": "fn s(a: string) int = 1", "gfn": "fn s«T»(a: T) { }", "ctorfn": "fn S(a: int) { }", "ctorfn2": "fn S() { }", "case": "enum z1 { S() }", "case2": "enum z2 { S(a: int) }", "case3": "enum z3«T» { Q() S(t: T) }", "casefn": "fn E1() { }",
          "casefn2": "fn E1(a: int) { }", "case4": "enum z4 { E1() E9() }", "case5": "enum z5 { E9() }", "upper": "struct S { a: int }", "upper2": "enum S { E3() }", "main2": "fn main() { }", "main3": "fn main(a: int) { }", "gmain": "fn other9() { }"}
    r = []
    for (a, x), (b, y) in itertools.product(ds.items(), ds.items()):
        mid = rng.choice(["", "fn between(q: int) { }\n", "struct between { q: int }\n"])
        r.append(Item(PRE + x + "\n" + mid + y + "\nfn main() { }\n", "%s then %s" % (a, b)))
    for n in ["int", "bool", "string", "bytes", "pointer", "nothing", "error", "option", "list", "map", "point"]:
        for f in ["struct %s { a: int }", "enum %s { E1() }", "struct %s«T» { a: T }"]:
            r.append(Item(PRE + f % n + "\nfn main() { }\n", "declaring %s" % f % n))
    for t in ["struct Upper { a: int }", "struct _x { a: int }", "struct élan { a: int }", "struct Élan { a: int }", "struct x1 { a: int }", "struct x { }", "enum x { }", "struct x«T» { }", "enum x { A() A() }", "enum x { A() B() A() }", "enum upper { a() b() }",
              "struct x { a: x }", "struct x { a: opt«x» }", "enum x { A(a: x) B() }", "struct x { a: y }\nstruct y { b: x }", "struct x«T» { a: x«T» }", "fn f() int { }", "fn f() int", "fn f(a: int)", "fn f() int = nope", "fn f() { return 1 }", "fn f() int { return }",
              "fn f() nothing { }", "fn f() nothing { return }", "fn f() int { while true { } }", "fn f() int { for i in 0..1 { return 1 } }"]:
        r.append(Item(PRE + t + "\nfn main() { }\n", t))
    return r


LITS = ["4611686018427387904", "-4611686018427387905", "99999999999999999999", "-99999999999999999999", "0x7FFFFFFFFFFFFFFF", "-0x8000000000000000", "0x4000000000000000", "9223372036854775808", "- 9223372036854775809"]
FITS = ["4611686018427387903", "-4611686018427387904", "0x3FFFFFFFFFFFFFFF", "-0x4000000000000000", "0", "-1"]
LITPOS = ["take(@)", "v := @", "v := [1, @, 3]", "z = @", "v := z + @", "v := @ - z", "v := bump(bump(@))", "v := 1 < 2 ? @ : 2", "v := 1 < 2 ? 3 : @", "if z < @ { nop() }", "while z < @ { z = z + 1 }",
          "for i in 0..@ { nop() }", "for i in @..1 { nop() }", "v := fn(a: int) int = a + @", "l := fn() { take(@) }", "match Green(@) { case Red(): nop() case Green(q): take(q) case Blue(q, w): take(w) }",
          "match o { case Som(q): nop() case Non(): take(@) }", "a[@] = 1", "a[0] = @", "v := a[@]", "@.take()", "z.plus(@)", "v := Box(@)", "v := Point(1, @)", "p.x = @", "v := (@)", "v := -(@)", "v := not (z == @)", "if z == 1 { nop() } elseif z == @ { nop() }"]


def literal_units(rng, frac=1.0):
    """integer literals that do not fit, everywhere an expression can stand"""
    r = []
    for p in LITPOS:
        for l in rng.sample(LITS, max(1, round(len(LITS) * frac))) + rng.sample(FITS, 1):
            if l[0] == "-" and p[0] in "@": continue
            r.append(unit("fn plus(a: int, b: int) { }\nfn t(z: int, a: []int, p: point, o: opt«int») { nop()\n %s }" % p.replace("@", l), "the literal %s in %s" % (l, p)))
    rng.shuffle(r)
    return r


def main_items(rng):
    """a program needs a function main without parameters, once"""
    r = []
    for d in ["", "fn mains() { }", "fn Main() { }", "fn MAIN() { }", "fn main(x: int) { }", "fn main(x: string) int = 1", "fn main(a: int, b: int) { }", "fn main() { }", "fn main() { println(1) }", "fn main() { }\nfn main(x: int) { }", "fn main(x: int) { }\nfn main(x: string) { }", "fn main() { }\nfn main() { }",
              "fn main(x: int) { }\nfn main() { main(1) }", "fn main() { }\nfn f() { main() }", "struct main { a: int }", "struct main { a: int }\nfn main() { }", "enum main { Ma() }", "enum main { Ma() }\nfn main() { }", "fn f() { main := 1\n main = 2 }", "fn f(main: int) int = main", "fn f(main: int) int = main\nfn main() { println(f(1)) }",
              "fn main() { main := 3\n println(main) }", "fn main() { return }", "fn main() { x := fn() { }\n x() }", "fn main() = nop()", "fn other() { }", "struct s { main: int }", "struct s { main: int }\nfn main() { x := S(1)\n println(x.main) }", "fn main«T»(x: T) { }", "fn f() { x := fn() { main() } }", "fn f() { x := fn() { main() } }\nfn main() { f() }"]:
        r.append(Item(PRE + d + "\n", "main: " + d))
        r.append(Item(d + "\n" + PRE, "main first: " + d))
    return r
