"""Programs for the type and declaration rules (C18, C21, C26): every rule broken in every way, at every place."""
import itertools, random, re
import front
from judge import Item

PRELUDE = """struct point { x: int y: int }
struct duo«A,B» { first: A second: B }
struct holder { f: fn(int) int a: []int p: point s: string b: bool g: fn(string) string }
struct node { v: int next: opt«node» }
enum color { Red() Green(n: int) Blue(a: int, b: string) }
enum opt«T» { Som(v: T) Non() }
fn bump(a: int) int = a + 1
fn neg(a: bool) bool = not a
fn cat(a: string, b: string) string = a
fn sum(a: int, b: int) int = a + b
fn nop() { }
fn mk() fn(int) int = bump
fn mks() []fn(int) int = [bump]
fn id«T»(x: T) T = x
fn two«T»(x: T, y: T) T = x
fn fst«A,B»(p: duo«A,B») A = p.first
fn app«T,U»(f: fn(T) U, x: T) U = f(x)
fn hd«T»(xs: []T) T = xs[0]
fn got«T»(o: opt«T», d: T) T = d
fn ov(a: int) int = 1
fn ov(a: string) int = 2
fn ov(a: int, b: bool) bool = b
fn ovb(a: bool) bool = a
fn ovb(a: string) bool = true
fn app2(a: int, f: fn(int) int) int = f(a)
fn hof(f: fn(string) int, x: int) int = f("s")
fn hof(f: fn(int) int, x: string) int = f(x.length)
fn hof(x: bool, f: fn(bool) bool, g: fn(int) int) bool = f(x)
fn fit«T»(f: fn(int, T) T, x: T) T = f(1, x)
"""
PARAMS = "i: int, b: bool, s: string, h: holder, c: color, o: opt«int»"
LOCALS = {"ai": "ai := [1, 2, 3]", "p": "p := Point(1, 2)", "pr": 'pr := Duo(1, "r")', "f": "f := bump", "ps": "ps := [Point(3, 4)]",
          "i2": "i2 := 5", "s2": 's2 := "t"', "b2": "b2 := true", "nd": "nd := Node(1, Non«node»())", "aa": "aa := [[1], [2]]"}

VALS = {
    "int": ["7", "i", "bump(1)", "i + 2", "ai[0]", "p.x", "-i", "h.f(1)", "s.length", "(b ? 1 : 2)", "id(3)", "pr.first", "1.bump()", "ai.length", "ov(1)", "nd.v"],
    "bool": ["true", "b", "i < 3", "not b", "neg(b)", "b and true", "h.b", "id(false)", "1 == 1", "ov(1, b)"],
    "string": ['"q"', "s", 'cat(s, "x")', "h.s", "pr.second", 'id("z")', 's.cat("y")', '(b ? "l" : s)'],
    "[]int": ["[1, 2]", "ai", "h.a", "id(ai)", "aa[0]"],
    "[]string": ['["a"]', "[s, s]"],
    "[][]int": ["[[1]]", "aa"],
    "[]point": ["ps", "[p]"],
    "point": ["p", "Point(1, 2)", "h.p", "id(p)", "ps[0]", "(b ? p : Point(i, i))"],
    "holder": ["h"],
    "node": ["nd"],
    "duo«int,string»": ["pr", 'Duo(1, "a")'],
    "duo«string,int»": ['Duo("a", 1)', 'Duo«string,int»(s, i)'],
    "duo«int,int»": ["Duo(1, 1)"],
    "color": ["c", "Red()", "Green(4)", 'Blue(1, "u")'],
    "opt«int»": ["o", "Som(1)", "Non«int»()"],
    "opt«string»": ['Som("a")', "Non«string»()"],
    "opt«opt«int»»": ["Som(o)"],
    "fn(int) int": ["f", "bump", "(fn(q: int) int = q)", "(fn(q: int) int { return q })", "h.f", "mk()", "mks()[0]"],
    "fn(int) bool": ["(fn(q: int) bool = true)"],
    "fn(bool) int": ["(fn(q: bool) int = 1)"],
    "fn() int": ["(fn() int = 1)"],
    "fn(int)": ["(fn(q: int) { nop() })"],
    "fn(int,int) int": ["sum"],
    "fn(string) string": ["h.g", "(fn(q: string) string = q)"],
    "nothing": ["nop()"],
    "overloaded": ["ov", "ovb"],
}
BINOPS = ["+", "-", "*", "/", "<<", ">>", "&", "|", "^", "<", "<=", ">", ">=", "=="]
COLOR = "{ case Red(): nop() case Green(m1): nop() case Blue(m1, m2): nop() }"
OPT = "{ case Som(m1): nop() case Non(): nop() }"


def slots():
    """statements with a hole @ for a value"""
    r = []
    for o in BINOPS:
        r += ["v := (@) %s 1" % o, "v := 1 %s (@)" % o, "v := i %s 1 %s (@)" % ("+", o)]
    for o in ("and", "or"):
        r += ["v := (@) %s true" % o, "v := b %s (@)" % o, "v := i < 3 %s (@)" % o]
    r += ["v := (@) == (@)", "v := (@) < (@)", "v := (@) + (@)", "v := (@) and (@)"]
    r += ["v := not (@)", "v := -(@)", "v := ~(@)", "v := not not (@)", "v := - -(@)",
          "v := (@) ? 1 : 2", "v := b ? (@) : 1", "v := b ? 1 : (@)", "v := b ? s : (@)", "v := b ? (@) : p", "v := b ? o : (@)",
          "v := b ? (b ? 1 : (@)) : 2", "v := b ? (@) : (@)", "v := b ? bump : (@)",
          "v := [@, 1]", "v := [1, @]", "v := [1, 2, @]", "v := [s, @]", "v := [p, @]", "v := [ai, @]", "v := [o, @]", "v := [f, @]", "v := [@, @]", "v := [pr, @]",
          "v := [[1], [@]]", "v := [[@], [1]]", "v := ([@])[0] + 1",
          "v := ai[@]", "v := (@)[0]", "v := aa[0][@]", "v := aa[@][0]", "v := (@)[0][0]", "v := h.a[@]",
          "v := (@).x", "v := (@).length", "v := (@).first", "v := (@).f", "v := (@).p.x", "v := (@).v",
          "i2 = @", "p.x = @", "ai[0] = @", "ai[@] = 1", "s2 = @", "b2 = @", "pr.second = @", "pr.first = @", "h.f = @", "(ps[0]).x = @", "h.a[0] = @", "ps[0] = @",
          "ps[0].y = @", "h.p = @", "h.p.y = @", "h.a = @", "f = @", "p = @", "pr = @", "aa[1] = @", "aa[1][0] = @", "c = @", "o = @", "nd.next = @", "i = @",
          "bump(@)", "v := bump(@)", "v := sum(@, 1)", "v := sum(1, @)", "v := cat(@, s)", "v := cat(s, @)", "v := neg(@)",
          "v := Point(@, 1)", "v := Point(1, @)", "v := Duo«int,string»(@, s)", "v := Duo«int,string»(1, @)", "v := Duo(@, 1).first + 1", "v := Duo(1, @).second + 1",
          "v := Green(@)", "v := Blue(1, @)", "v := Blue(@, s)", "v := Som«int»(@)", "v := Node(1, @)", "v := Node(@, Non«node»())",
          "v := Holder(@, ai, p, s, b, h.g)", "v := Holder(bump, @, p, s, b, h.g)", "v := Holder(bump, ai, @, s, b, h.g)", "v := Holder(bump, ai, p, s, b, @)",
          "v := id«int»(@)", "v := id(@) + 1", "v := two(1, @)", "v := two(@, 1)", "v := two(s, @)", "v := two«int»(@, @)", "v := two(@, p)", "v := two(@, bump)",
          "v := f(@)", "v := h.f(@)", "v := (h.f)(@)", "v := h.g(@)", "v := mk()(@)", "v := mks()[0](@)", "v := fn(q: int) int { return q }(@)", "v := (@)(1)", "v := (@)()",
          "v := fst(@)", "v := fst(@) + 1", "v := app(bump, @)", "v := app(@, 1)", "v := app«int,int»(@, 1)", "v := app(@, 1) + 1", "v := app(@, s)", "v := hd(@)", "v := hd(@) + 1", "v := got(@, 1)",
          "v := got(o, @)", "v := app(fn(q: int) int { return q + (@) }, 1)",
          "v := ov(@)", "v := ov(1, @)", "v := ov(@, b)", "v := ovb(@)", "v := app(ov, @)", "v := hof(ov, @)", "v := hof(@, 1)", "v := hof(@, s)", "v := hof(b, ovb, @)", "v := hof(b, @, ov)", "v := hof(@, ovb, ov)", "v := fit(ov, @)", "v := fit(@, 1) + 1", "v := fit(@, b)", "v := fit«bool»(ov, @)", "v := app(ovb, @)", "v := app«bool,bool»(ovb, @)", "f = (@)",
          "v := (@).bump()", "v := i.sum(@)", "v := (@).sum(1)", "v := (@).cat(s)", "v := (@).id() + 1", "v := (@).f(1)", "v := (@).fst()", "v := (@).hd()", "println(@)",
          "if @ { nop() }", "if b { nop() } elseif @ { nop() }", "if b { nop() } elseif b { nop() } elseif @ { nop() } else { nop() }", "while @ { nop() }",
          "for z in @ { nop() }", "for z in (@)..3 { nop() }", "for z in 0..(@) { nop() }", "for z in @ { v := z + 1 }", "for z in [@] { v := z + 1 }", "for z in 0..2 { v := z + (@) }",
          "match @ " + COLOR, "match @ " + OPT, "match Som(@) { case Som(m1): v := m1 + 1 case Non(): nop() }", "match @ { case Som(m1): v := m1 + 1 case Non(): nop() }",
          "match c { case Red(): nop() case Green(m1): v := m1 + (@) case Blue(m1, m2): nop() }", "match c { case Red(): nop() case Green(m1): nop() case Blue(m1, m2): m2 = @ }",
          "w := fn() int { return @ }", "w := fn() int = @", "w := fn() { return @ }", "w := fn() point { if b { return @ } return p }", "w := fn() opt«int» = @", "w := fn() []int { return @ }",
          "w := fn() fn(int) int = @", "w := fn(q: int) string { return @ }", "w := fn() bool { match c { case Red(): return true case Green(m1): return @ case Blue(m1, m2): return false } }",
          "w := fn() duo«int,string» = @", "w := fn() color { while b { return @ } return c }",
          "v := @\n w := v + 1", "v := @\n v = 1", "v := @\n if v { nop() }", "v := @\n w := v.x", "v := @\n w := v[0] + 1", "v := @\n w := v(1) + 1", "v := @\n match v " + OPT, "v := @\n w := fn() int = v",
          "@"]
    return r


# where a statement may stand.  $ is the place.
CONTEXTS = {
    "plain": "$",
    "if": "if b { $ }",
    "elseif": "if b { nop() } elseif i == 1 { $ } else { nop() }",
    "else": "if b { nop() } else { $ }",
    "ifelse2": "if b { nop() } elseif b { nop() } elseif b { $ }",
    "while": "while b { $ }",
    "range": "for k1 in 0..3 { $ }",
    "down": "for k1 in 3..0 { $ }",
    "each": "for k1 in [1, 2] { $ }",
    "case1": "match c { case Red(): $ case Green(m): nop() case Blue(m, m2): nop() }",
    "case3": "match c { case Red(): nop() case Green(m): nop() case Blue(m, m2): nop() $ }",
    "gcase": "match o { case Som(m): $ case Non(): nop() }",
    "lam": "l := fn() { $ }",
    "lamcall": "l := fn(y: int) { $ nop() }\n l(1)",
    "lam2": "l := fn(y: int) fn() { return fn() { $ } }",
    "lamarr": "l := [fn() { nop() }, fn() { $ }]",
    "lamtern": "l := b ? fn() { $ } : fn() { nop() }",
    "lamtern2": "l := b ? fn() { nop() } : fn() { $ }",
    "lamarg": "l := app(fn(y: int) int { $ return y }, 4)",
    "lamcons": "l := Duo(fn() { $ }, 1)",
    "lamenum": "l := Som(fn() { $ })",
    "lamret": "if b { l := fn() int { $ return 3 } }",
    "lamas": "f = fn(y: int) int { $ return y }",
    "lamfield": "h.f = fn(y: int) int { $ return y }",
    "lamdirect": "l := fn(y: int) int { $ return y }(2)",
    "lamdot": "l := i.app2(fn(y: int) int { $ return y })",
    "lamcond": "if app(fn(y: int) bool { $ return true }, 1) { nop() }",
    "lamidx": "l := ai[fn(y: int) int { $ return y }(0)]",
    "lambin": "l := 1 + fn(y: int) int { $ return y }(2)",
    "lamun": "l := -fn(y: int) int { $ return y }(2)",
    "lamstmt": "fn(y: int) { $ }(2)",
    "lamexpr": "l := fn() fn() = fn() { $ }",
    "lamfor": "for k1 in 0..fn(y: int) int { $ return y }(2) { nop() }",
    "lameach": "for k1 in [fn(y: int) int { $ return y }(2)] { nop() }",
    "lamwhile": "while fn() bool { $ return false }() { nop() }",
    "lammatch": "match Som(fn() { $ }) { case Som(m): m() case Non(): nop() }",
    "lamretv": "l := fn() fn() { return fn() { $ } }",
    "deep": "while b { if b { for k1 in 0..2 { match o { case Som(m): l := fn() { if b { $ } } case Non(): nop() } } } }",
    "afterret": "if b { return }\n $",
    "second": "nop()\n $\n nop()",
}
# where an expression may stand: `v := EXPR` becomes this
WRAPS = ["v := [#]", "v := [#, #]", "v := id(#)", "v := b ? # : #", "v := Duo(1, #)", "v := Duo(#, 1)", "v := Som(#)", "v := two(#, #)", "v := fn() { v2 := # }",
         "v := [[#]]", "v := id(Som(#))", "# ", "v := (#)", "v := [Duo(1, [#])]", "println(1 + [1, 2][fn() int { u := #\n return 1 }()])", "v := Duo(b ? 1 : 2, b ? # : #)",
         "return #", "v := id([#])[0]", "h.f(fn() int { v2 := [#]\n return 1 }())", "i = fn() int { # return 1 }()"]
SHELLS = {
    "fn": "fn t(%s) {\n%%s\n%%s\n}\n" % PARAMS,
    "generic": "fn t«T»(i: int, b: bool, s: string, h: holder, c: color, o: opt«int») {\n%s\n%s\n}\n",
    "int": "fn t(%s) int {\n%%s\n%%s\nreturn 0\n}\n" % PARAMS,
}


def body(stmt, what, shell="fn"):
    """a whole program around the statement; local variables are declared where they are used"""
    loc = "\n".join(d for n, d in LOCALS.items() if re.search(r"\b%s\b" % n, stmt))
    return unit(SHELLS[shell] % (loc, stmt), what)


def unit(u, what, pre=None):
    pre = pre or PRELUDE
    return Item(pre + u + "\nfn main() { }\n", what, pre, u + "\n")


def parses(text):
    try:
        front.parse(text)
        return True
    except front.SyntaxError_:
        return False


def ok(it): return parses(it.unit or it.text)


def val(rng, t): return rng.choice(VALS[t])


def slot_items(rng, full=False, frac=1.0):
    """every slot with a value of every type"""
    r = []
    for s in slots():
        for t in VALS:
            if frac < 1 and rng.random() > frac:
                continue
            for v in (VALS[t] if full else [val(rng, t)]):
                x = s.replace("@", v)
                r.append(body(x, "%s in %s" % (v, s)))
                r[-1].slot = (s, t, v)
    return r


def more_valid(units):
    """where a value of some type is right, all other values of that type are"""
    r = []
    for s, t, v in [u.slot for u in units if hasattr(u, "slot") and u.v == "accept"]:
        for w in VALS[t]:
            if w != v: r.append(body(s.replace("@", w), "%s in %s" % (w, s)))
    return r


def context_items(rng, n):
    """errors (and non-errors) at every place: every context with n random slots"""
    ss, r = slots(), []
    for cn, c in CONTEXTS.items():
        for _ in range(n):
            s = rng.choice(ss)
            x = s.replace("@", val(rng, rng.choice(list(VALS))))
            if cn not in ("plain", "second") and rng.random() < 0.15:
                c2 = CONTEXTS[rng.choice(list(CONTEXTS))]
                x = c2.replace("$", x).replace("k1", "k2").replace("l :=", "l2 :=").replace("(m", "(n")
            r.append(body(c.replace("$", x), "%s in context %s" % (x, cn), rng.choice(["fn", "fn", "generic", "int"])))
    exprs = [s for s in ss if s.startswith("v := ") and "\n" not in s]
    for w in WRAPS:
        for _ in range(n):
            s = rng.choice(exprs)
            x = s[5:].replace("@", val(rng, rng.choice(list(VALS))))
            r.append(body(w.replace("#", "(" + x + ")" if not w.startswith("#") else "v0 := " + x), "%s wrapped as %s" % (x, w)))
    return r


# ---------------------------------------------------------------------------------------------------- calls: numbers of arguments
def arity_items(rng):
    r = []
    fns = {"bump": ["1"], "sum": ["1", "2"], "cat": ["s", "s"], "nop": [], "Point": ["1", "2"], "Green": ["1"], "Blue": ["1", "s"], "Red": [], "Som": ["1"],
           "Duo": ["1", "s"], "id": ["1"], "two": ["1", "2"], "app": ["bump", "1"], "f": ["1"], "h.f": ["1"], "(h.f)": ["1"], "mk()": ["1"], "i.sum": ["2"], "i.bump": [],
           "mks()[0]": ["1"], "fn() int { return 1 }": [], "fn(q: int) int { return q }": ["1"], "i.id": [], "ov": ["1"], "Holder": ["bump", "ai", "p", "s", "b", "h.g"]}
    for f, good in fns.items():
        for k in range(0, len(good) + 3):
            as_ = (good + ["1"] * 4)[:k]
            r.append(body("%s%s(%s)" % ("v := " if f != "nop" else "", f, ", ".join(as_)), "%s with %d arguments" % (f, k)))
            if len(as_) > 1:
                x = list(as_)
                rng.shuffle(x)
                r.append(body("v := %s(%s)" % (f, ", ".join(x)), "%s with shuffled arguments" % f))
    for f, n, as_ in (("id", 1, ["1"]), ("two", 1, ["1", "2"]), ("Duo", 2, ["1", "s"]), ("Som", 1, ["1"]), ("Non", 1, []), ("app", 2, ["bump", "1"]), ("bump", 0, ["1"]), ("Point", 0, ["1", "2"]),
                      ("Green", 0, ["1"]), ("f", 0, ["1"]), ("ov", 0, ["1"]), ("fst", 2, ["pr"])):
        for ts in itertools.chain(*[itertools.product(["int", "string", "point", "opt«int»", "[]int", "unknown", "opt«unknown»", "opt«int,int»", "int«int»", "point«int»"], repeat=k) for k in range(0, 4)]):
            if len(ts) > 1 and rng.random() > 12 / 10 ** len(ts):
                continue
            r.append(body("v := %s%s(%s)" % (f, "«%s»" % ",".join(ts) if ts else "", ", ".join(as_)), "%s with type arguments %s" % (f, ts)))
    return r


PRE6 = PRELUDE + """struct six { a: int b: int c: int d: int e: int f: int }
enum sev { S0() S1(a: int) S2(a: int, b: int) S3() S4() S5(a: int, b: int, c: int, d: int, e: int) S6() S7() }
struct quad«A,B,C,D» { a: A b: B c: C d: D }
enum qua«A,B,C,D» { Qa(a: A) Qb(b: B) Qc(c: C) Qd(d: D) Qall(a: A, b: B, c: C, d: D) }
fn six(a: int, b: int, c: int, d: int, e: int, f: int) int = a
fn same6«T»(a: T, b: T, c: T, d: T, e: T, f: T) T = a
fn four4«A,B,C,D»(q: quad«A,B,C,D») D = q.d
"""


def position_items(rng, full=False):
    """long lists of anything that is repeated: one member is of another type, at every position"""
    r = []
    P6 = "i: int, b: bool, s: string, v6: sev, h: holder"
    bad = {"int": ["s", "b", '"q"', "[1]", "Point(1, 2)", "not b", "i < 2", "bump", "h", "Som(1)"], "string": ["i", "1", "b", '["a"]'], "bool": ["i", "s", "1 + 1", "[b]"], "[]int": ["[s]", "[[1]]", "1", "s"], "point": ["h", "1", "Duo(1, 2)"]}
    good = {"int": ["i", "1", "i + 2", "bump(i)", "[1, 2][0]"], "string": ["s", '"x"', 'cat(s, "q")'], "bool": ["b", "i < 2", "not b", "b and b"], "[]int": ["[1]", "h.a", "[i, i]"], "point": ["h.p", "Point(i, 1)"]}
    G = lambda t: rng.choice(good[t])

    def seq(n, j, t):
        """n values of type t, the one at j of another type (j < 0: none)"""
        return [rng.choice(bad[t]) if k == j else G(t) for k in range(n)]

    def emit(st, what): r.append(unit("fn t(%s) {\n%s\n}" % (P6, st), what, PRE6))
    lens = [1, 2, 3, 4, 5, 6, 8, 9, 12, 17] + ([33, 64] if full else [])
    for n in lens:
        for j in range(-1, n):
            if n > 6 and j not in (-1, 0, n // 2, n - 2, n - 1) and rng.random() < .5: continue
            for t in rng.sample(list(good), 2 if n < 7 else 1):
                xs = seq(n, j, t)
                emit("v := [%s]" % ", ".join(xs), "array literal of %d, element %d" % (n, j))
                if rng.random() < .3: emit("v := [[%s], [%s]]" % (", ".join(G(t) for _ in xs), ", ".join(xs)), "second row of an array literal of %d, element %d" % (n, j))
                if rng.random() < .3: emit("v := [%s]" % ", ".join("[%s]" % x for x in xs), "array of %d arrays, element %d" % (n, j))
                if rng.random() < .3: emit("for z in [%s] { nop() }" % ", ".join(xs), "loop over an array literal of %d, element %d" % (n, j))
            cs = seq(n, j, "bool")
            emit("if %s { nop() }" % cs[0] + "".join(" elseif %s { nop() }" % c for c in cs[1:]) + rng.choice(["", " else { nop() }"]), "chain of %d conditions, number %d" % (n, j))
            emit("v := " + rng.choice([" and ", " or "]).join("(%s)" % c for c in cs), "%d conditions in a row, number %d" % (n, j))
            xs = seq(n, j, "int")
            emit("v := " + rng.choice([" + ", " * ", " - ", " & "]).join("(%s)" % x for x in xs) + " + 1", "%d summands, number %d" % (n, j))
            emit("v := " + "".join("(b ? (%s) : " % x for x in xs) + "i" + ")" * n, "%d nested ternaries, number %d" % (n, j))
            emit("v := " + "".join("(%s ? i : " % c for c in cs) + "i" + ")" * n, "%d nested ternaries, condition %d" % (n, j))
            emit("\n".join("i = %s" % x for x in xs), "%d assignments, number %d" % (n, j))
            emit("\n".join("bump(%s)" % x for x in xs), "%d calls, number %d" % (n, j))
            emit("\n".join("l%d := fn() int { return %s }" % (k, x) for k, x in enumerate(xs)), "%d function values, number %d" % (n, j))
            if n <= 6: emit("".join("if b { " for _ in range(n)) + "v := 1 + (%s)" % (xs[j]) + " }" * n, "%d blocks deep" % n)
            emit("v := " + "bump(" * n + (rng.choice(bad["int"]) if j == 0 else "i") + ")" * n, "%d calls deep" % n)
            emit("v := i" + "".join(".sum(%s)" % x for x in xs), "%d method calls, argument %d" % (n, j))
    for j in range(-1, 6):
        for rep in range(2):
            xs = ", ".join(seq(6, j, "int"))
            for f in ("six", "Six"): emit("v := %s(%s)" % (f, xs), "%s, argument %d" % (f, j))
            ys = seq(6, j, "int")
            emit("v := (%s).six(%s)" % (ys[0], ", ".join(ys[1:])), "method six, argument %d" % j)
            t = rng.choice(list(good))
            emit("v := same6(%s)" % ", ".join(seq(6, j, t)), "same6 at %s, argument %d" % (t, j))
            emit("v := same6«%s»(%s)" % (t, ", ".join(seq(6, j, t))), "same6«%s», argument %d" % (t, j))
            if j < 5:
                emit("v := S5(%s)" % ", ".join(seq(5, j, "int")), "S5, argument %d" % j)
                emit("f5 := fn(a: int, b: int, c: int, d: int, e: int) int { return a }\nv := f5(%s)" % ", ".join(seq(5, j, "int")), "function value, argument %d" % j)
                emit("v := [fn(a: int, b: int, c: int, d: int, e: int) int { return a }][0](%s)" % ", ".join(seq(5, j, "int")), "element, argument %d" % j)
            emit("o := Six(1, 2, 3, 4, 5, 6)\n" + "\n".join("o.%s = %s" % (c, x) for c, x in zip("abcdef", seq(6, j, "int"))), "field %d assigned" % j)
            emit("o := Six(1, 2, 3, 4, 5, 6)\nv := %s" % " + ".join("o.%s" % c for c in ["abcdef"[k] if k != j else "g" for k in range(6)]), "field %d read" % j)
    # every case of a long match
    cases = [("S0", 0), ("S1", 1), ("S2", 2), ("S3", 0), ("S4", 0), ("S5", 5), ("S6", 0), ("S7", 0)]
    for j in range(-1, 8):
        for rep in range(2):
            cs = list(cases)
            if rep: rng.shuffle(cs)
            xs = seq(8, j, "int")
            emit("match v6 { %s }" % " ".join("case %s(%s): i = %s" % (c, ", ".join("m%d" % k for k in range(m)), x) for (c, m), x in zip(cs, xs)), "body of case %d" % j)
            r.append(unit("fn t(%s) int { match v6 { %s } }" % (P6, " ".join("case %s(%s): return %s" % (c, ", ".join("m%d" % k for k in range(m)), x) for (c, m), x in zip(cs, xs))), "result of case %d" % j, PRE6))
    for k in range(5):
        for t in ("m%d + 1", "m%d.length", "[m%d][0] + 1", "cat(s, m%d)"):
            emit("match v6 { %s }" % " ".join("case %s(%s): %s" % (c, ", ".join("m%d" % q for q in range(m)), "v := " + t % k if c == "S5" else "nop()") for c, m in cases), "variable %d of a case" % k)
    # type arguments: each position
    T4 = ["int", "string", "bool", "[]int"]
    for j in range(-1, 4):
        for alt in ["int", "string", "bool", "[]int", "[]string", "opt«int»"]:
            ts = list(T4)
            if j >= 0: ts[j] = alt
            a, b_ = ",".join(T4), ",".join(ts)
            for w in ("quad", "qua"):
                for o, c in (("", ""), ("[]", ""), ("opt«", "»"), ("duo«int,", "»"), ("fn(", ") int"), ("fn() ", "")):
                    if rng.random() < .5: continue
                    A_, B_ = o + "%s«%s»" % (w, a) + c, o + "%s«%s»" % (w, b_) + c
                    r.append(unit(rng.choice(["fn use(x: %s) { }\nfn t(y: %s) { use(y) }", "fn t(x: %s, y: %s) { x = y }", "fn t(y: %s, x: %s) { v := [y, x] }", "fn t(y: %s, x: %s) { v := 1 == 1 ? y : x }", "fn t(y: %s, x: %s) { v := two(x, y) }",
                                              "fn t(y: %s) %s { return y }", "fn t(y: %s) %s = y"]) % (A_, B_), "%s / %s" % (A_, B_), PRE6))
            for d in ("d", "c", "b", "a"):
                r.append(unit("fn t(y: quad«%s») %s = y.%s" % (b_, rng.choice(T4), d), "field %s of quad«%s»" % (d, b_), PRE6))
            r.append(unit("fn t(y: quad«%s») []int = four4(y)" % b_, "four4 of quad«%s»" % b_, PRE6))
            r.append(unit("fn t(y: qua«%s») int { match y { case Qa(a): return a case Qb(x): return x.length case Qc(x): return x ? 1 : 2 case Qd(x): return x[0] case Qall(x, y1, z, w): return x + y1.length + (z ? 1 : 2) + w[0] } }" % b_, "match of qua«%s»" % b_, PRE6))
    # function types: each position
    for n in range(1, 6):
        for j in range(-1, n + 1):
            A_ = "fn(%s) int" % ",".join(["int"] * n)
            for alt in ("string", "[]int", "opt«int»"):
                B_ = "fn(%s) %s" % (",".join(alt if k == j else "int" for k in range(n)), alt if j == n else "int")
                r.append(unit(rng.choice(["fn use(x: %s) { }\nfn t(y: %s) { use(y) }", "fn t(x: %s, y: %s) { x = y }", "fn t(y: %s, x: %s) { v := [y, x] }", "fn t(y: []%s, x: []%s) { v := two(x, y) }"]) % (A_, B_), "%s / %s" % (A_, B_), PRE6))
    return r


def fn_types(rng):
    """function types against function types: same or different in one part"""
    ts = ["fn(int) int", "fn(int) bool", "fn(bool) int", "fn(int)", "fn() int", "fn(int,int) int", "fn(int) fn(int) int", "fn(fn(int) int) int", "fn([]int) int", "fn(int) []int",
          "fn(opt«int») int", "fn(int) opt«int»", "fn(opt«string») int", "fn(point) int", "fn(int) point", "[]fn(int) int", "[]fn(int)", "opt«fn(int) int»", "opt«fn(int)»", "duo«fn(int),int»"]
    r = []
    for a in ts:
        for b in ts:
            r.append(unit("fn use(x: %s) { }\nfn t(y: %s) { use(y) }" % (a, b), "%s passed as %s" % (b, a)))
            if rng.random() < 0.3:
                r.append(unit("fn t(x: %s, y: %s) { x = y }" % (a, b), "%s assigned to %s" % (b, a)))
            if rng.random() < 0.2:
                r.append(unit("fn t(y: %s) %s { return y }" % (b, a), "%s returned as %s" % (b, a)))
    return r


def signature_units(rng, n=4):
    """generic declarations that mention every type next to a type parameter, called and compared with what they give"""
    ts = ["int", "bool", "string", "bytes", "pointer", "[]int", "[]bytes", "[]pointer", "[][]string", "point", "node", "color", "opt«int»", "opt«bytes»", "opt«opt«string»»", "duo«int,bytes»", "duo«string,opt«bool»»",
          "fn()", "fn() int", "fn() bytes", "fn(bytes) pointer", "fn(int) fn(bool) string", "fn(opt«int») []bytes", "[]fn(int) int", "opt«fn()»", "duo«fn() bytes,[]pointer»"]
    forms = ["fn t«T»(x: T, y: {t}) {t} = y\nfn use(a: {a}, y: {t}) {u} = t(a, y)", "fn t«T»(y: {t}, x: T) T = x\nfn use(a: {a}, y: {u}) {a} = t(y, a)", "fn t«T»(x: []T, y: {t}) {t} {{ return y }}\nfn use(a: {a}, y: {t}) {u} = t([a], y)",
             "fn t«T»(f: fn(T) {t}, x: T) {t} = f(x)\nfn use(f: fn({a}) {u}, x: {a}) {t} = t(f, x)", "fn t«T»(f: fn({t}) T, x: {t}) T = f(x)\nfn use(f: fn({u}) {a}, x: {t}) {a} = t(f, x)", "fn t«T»(x: T, y: {t}) fn(T) {t} = fn(z: T) {t} = y\nfn use(a: {a}, y: {t}) {u} = t(a, y)(a)",
             "fn t«T,U»(x: T, y: {t}, z: U) duo«U,{t}» = Duo(z, y)\nfn use(a: {a}, y: {t}) {u} = t(a, y, 1).second", "fn t«T»(y: {t}, x: opt«T») opt«{t}» = Som(y)\nfn use(a: {a}, y: {t}) opt«{u}» = t(y, Som(a))", "fn t«T»(x: T, y: {t}) {t} {{ z := y\n z = y\n return z }}\nfn use(a: {a}, y: {u}) {t} = t(a, y)",
             "fn t«T»(y: {t}) {t} = y\nfn use(y: {t}) {u} = t«{a}»(y)", "fn t«T»(f: fn(), y: {t}) T = t«T»(f, y)\nfn use(y: {u}) {a} = t«{a}»(nop, y)", "struct gs«T» {{ a: {t} b: T }}\nfn t(x: gs«{a}») {u} = x.a\nfn use(y: {t}, a: {a}) gs«{a}» = Gs(y, a)",
             "enum ge«T» {{ Gx(a: {t}, b: T) Gy(c: []T) }}\nfn t(x: ge«{a}», d: {t}) {u} {{ match x {{ case Gx(p, q): return p case Gy(r): return d }} }}", "fn t«T»(x: T) fn({t}) {t} = fn(y: {t}) {t} = y\nfn use(a: {a}) fn({t}) {u} = t(a)"]
    r = []
    for t in ts:
        for f in rng.sample(forms, min(n, len(forms))) if n < len(forms) else forms:
            for u in [t, t, rng.choice(ts)] if n < 9 else [t, rng.choice(ts), rng.choice(ts)]:
                r.append(unit(f.format(t=t, u=u, a=rng.choice(ts)), "%s: %s, %s" % (f.split("\n")[0][:30], t, u)))
    return r


def inference_units(rng, frac=1.0):
    """generic functions whose result mentions type parameters that the arguments may or may not determine, called with and without type arguments"""
    shapes = ["T", "[]T", "[][]T", "opt«T»", "[]opt«T»", "opt«[]T»", "duo«T,int»", "duo«int,T»", "duo«string,opt«T»»", "opt«opt«T»»", "fn(T) int", "fn(int) T", "fn() T", "fn(T)", "fn([]T) int", "fn(int) opt«T»", "fn(int,T) int", "fn() fn(T) int",
              "fn(fn(T)) int", "[]fn(T) int", "opt«fn() T»", "duo«T,T»", "int", "[]int", "duo«int,fn(T)»"]
    params = [("", ""), ("x: T", "$v"), ("x: []T", "[$v]"), ("x: int", "1"), ("x: opt«T»", "Som($v)"), ("x: opt«T»", "o"), ("x: fn(T)", "(fn(q: $t) { nop() })"), ("x: fn() T", "(fn() $t = $v)"), ("x: duo«int,T»", "Duo(2, $v)"), ("f: fn(int) int", "bump"),
              ("x: int, y: []T", "3, [$v, $v]")]
    vals = {"int": "7", "string": '"u"', "[]int": "[1]", "point": "Point(1, 2)", "opt«int»": "Som(4)", "fn(int) int": "(fn(k: int) int = k)"}
    places = ["z := @", "@", "id(@)", "z := [@]", "nop() if b { @ }", "z := Som(@)", "g := fn() { @ }"]
    r = []

    def inst(s, t): return s.replace("T", t)
    for sh in shapes:
        for ps, arg in params:
            for t in rng.sample(sorted(vals), 2):
                for x in ("", "«%s»" % t, "«%s»" % rng.choice(sorted(vals))):
                    if rng.random() > frac: continue
                    a = arg.replace("$v", vals[t]).replace("$t", t)
                    call = "q%s(%s)" % (x, a)
                    place = rng.choice(places).replace("nop() if", "if").replace("@", call)
                    # the function calls itself, so that it needs no value of its result type
                    names = ", ".join(p.split(":")[0].strip() for p in ps.split(", ") if p)
                    u = "fn q«T»(%s) %s = q«T»(%s)\nfn t(b: bool, o: opt«%s») { %s }" % (ps, sh, names, t, place)
                    if rng.random() < .35:      # the result is used at its own or at another type
                        w = inst(sh, t if rng.random() < .6 else rng.choice(sorted(vals)))
                        u = "fn q«T»(%s) %s = q«T»(%s)\nfn t(b: bool, o: opt«%s») %s = %s" % (ps, sh, names, t, w, call)
                    r.append(unit(u, "%s from (%s) called %s" % (sh, ps, call)))
    for rt, args in [("duo«T,U»", "x: T, y: U"), ("duo«T,U»", "x: T"), ("duo«T,U»", "y: U"), ("fn(T) U", "x: T"), ("fn(T) U", "y: U"), ("fn(U) T", "x: T, y: U"), ("opt«duo«T,U»»", "x: U"), ("[]fn(T) U", "x: T"), ("T", "y: U"), ("U", "x: T"), ("T", "x: T"), ("int", "x: T"), ("[]U", "x: []T"), ("fn() U", "f: fn(T) U, x: T"), ("fn() U", "f: fn(int) T, x: T")]:
        for x in ("", "«int,string»", "«int»", "«string,int,bool»", "«string,int»"):
            n = args.count(":")
            names = ", ".join(a.split(":")[0].strip() for a in args.split(", "))
            for vs in (["1", '"s"'], ['"s"', "1"], ["2", "3"]) if "f:" not in args else (["bump", "1"], ["bump", '"s"'], ["(fn(k: string) int = 1)", '"s"'], ["(fn(k: int) string = \"w\")", '"r"']):
                r.append(unit("fn q«T,U»(%s) %s = q«T,U»(%s)\nfn t() { z := q%s(%s) }" % (args, rt, names, x, ", ".join(vs[:n])), "%s from (%s) called with %s %s" % (rt, args, x, vs[:n])))
    return r


def generic_items(rng):
    """inside generic functions: a type parameter is equal to itself only"""
    r = []
    for d in ["fn t«T»(x: T) int { return x }", "fn t«T»(x: int) T { return x }", "fn t«T,U»(x: T, y: U) T { return y }", "fn t«T,U»(x: T, y: U) U = x", "fn t«T»(x: T) T = x", "fn t«T»(x: T) T = id(x)",
              "fn t«T,U»(x: T, y: U) U = id(x)", "fn t«T»(x: T) T = x + 1", "fn t«T»(x: T) bool = x == x", "fn t«T»(x: T, y: T) bool = x < y", "fn t«T»(x: []T) T = x[0]", "fn t«T»(x: []T) []T = x[0]",
              "fn t«T»(x: T) []T = [x, x]", "fn t«T»(x: T) []T = [x, 1]", "fn t«T,U»(x: T, y: U) []T = [x, y]", "fn t«T»(x: opt«T») T { match x { case Som(v): return v case Non(): return hd([1]) } }",
              "fn t«T»(x: opt«T», d: T) T { match x { case Som(v): return v case Non(): return d } }", "fn t«T,U»(x: opt«T», d: U) U { match x { case Som(v): return v case Non(): return d } }",
              "fn t«T»(x: duo«T,int») T = x.first", "fn t«T»(x: duo«T,int») T = x.second", "fn t«T,U»(x: duo«T,U») duo«U,T» = Duo(x.second, x.first)", "fn t«T,U»(x: duo«T,U») duo«U,T» = x",
              "fn t«T,U»(x: duo«T,U») duo«T,U» = Duo(x.second, x.first)", "fn t«T»(f: fn(T) T, x: T) T = f(f(x))", "fn t«T,U»(f: fn(T) U, x: T) U = f(f(x))", "fn t«T,U»(f: fn(T) U, x: U) U = f(x)",
              "fn t«T»(x: T) T { y := x\n y = x\n return y }", "fn t«T»(x: T) T { y := 1\n y = x\n return x }", "fn t«T»(x: T) fn() T = fn() T = x", "fn t«T»(x: T) fn() T = fn() int = 1",
              "fn t«T»(x: T) fn(T) T = fn(y: T) T = x", "fn t«T,U»(x: T) fn(U) T = fn(y: U) T = y", "fn t«T»(x: T) T { if x { return x } return x }", "fn t«T»(x: T) { x() }", "fn t«T»(x: T) int = x.length",
              "fn t«T»(x: T) int = x.v", "fn t«T»(x: []T) int = x.length", "fn t«T»(x: T) { for q in x { nop() } }", "fn t«T»(x: []T) T { for q in x { return q } return x[0] }", "fn t«T»(x: T) { match x { case Som(v): nop() case Non(): nop() } }",
              "fn t«T»(x: T) { t(x) }", "fn t«T»(x: T) { t([x]) }", "fn t«T»(x: T, y: T) { t(y, x) }", "fn t«T»(x: T, y: int) { t(y, y) }", "fn t«T»(x: T, y: int) { t(x, x) }", "fn t«T»(x: T) { println(x) }",
              "fn t«T»(x: opt«opt«T»») opt«T» { match x { case Som(v): return v case Non(): return Non«T»() } }", "fn t«T»(x: opt«opt«T»») T { match x { case Som(v): return v case Non(): return t(x) } }",
              "fn t«T»(x: T) opt«T» = Som(x)", "fn t«T»(x: T) opt«T» = Som(1)", "fn t«T»(x: T) opt«T» = Non()", "fn t«T»(x: T) opt«T» = Non«T»()", "fn t«T»(x: T) opt«T» = Non«int»()",
              "fn t«T»() T = t«T»()", "fn t«T»() T = t()", "fn t«T»() int = t()", "fn t(x: T) int = 1", "struct q«T» { a: U }", "struct q«T» { a: T b: []T c: fn(T) T d: opt«T» }", "enum q«T» { QA(a: U) }", "enum q«T» { QA(a: T) QB(b: q«T») }",
              "enum q«T» { QA(a: q) }", "struct q«T» { a: q«T,T» }", "struct q { a: q«int» }", "struct q«T» { a: T«int» }"]:
        r.append(Item(PRELUDE + d + "\nfn main() { }\n", d))
    for a in ["int", "string", "point", "opt«int»", "[]int", "duo«int,string»", "fn(int) int"]:
        for b in ["int", "string", "point", "opt«int»", "[]int", "duo«int,string»", "fn(int) int"]:
            for sig, use in [("x: T, y: T", "q(a, b)"), ("x: []T, y: T", "q([a], b)"), ("x: opt«T», y: T", "q(Som(a), b)"), ("x: duo«T,T», y: T", "q(Duo(a, a), b)"), ("x: fn(T) T, y: T", "q(fn(z: %s) %s = z, b)" % (a, a)),
                             ("x: T, y: fn() T", "q(a, fn() %s = b)" % b), ("x: T, y: []T", "q(a, [b])"), ("x: T, y: opt«T»", "q(a, Som(b))"), ("x: duo«int,T», y: T", "q(Duo(1, a), b)")]:
                if a == b and rng.random() < 0.6 or rng.random() < 0.5:
                    continue
                r.append(Item(PRELUDE + "fn q«T»(%s) { }\nfn t(a: %s, b: %s) { %s }\nfn main() { }\n" % (sig, a, b, use), "q(%s) called with %s and %s" % (sig, a, b)))
    return r


# ---------------------------------------------------------------------------------------------------- random changes of larger programs
def mutate(rng, text, n, rounds=(1, 1, 1, 2)):
    """programs that differ from text in one place (an expression replaced, a name changed, something removed or repeated)"""
    p = front.parse(text)
    exprs = [j for j, x in enumerate(p.nodes) if x["k"] in ("int", "bool", "str", "var", "un", "bin", "tern", "arr", "idx", "dot", "call", "mcall", "dyn", "lam")]
    stmts = [j for j, x in enumerate(p.nodes) if x["k"] in ("das", "as", "ret", "expr")]
    ids = sorted({t.v for t in p.t if t.k == "id"})
    tyn = ["int", "bool", "string", "[]int", "fn(int) int"] + [x["n"] for x in p.nodes if x["k"] in ("struct", "enum") and not x["tps"]]
    small = [j for j in exprs if p.spans[j][1] - p.spans[j][0] <= 14]
    r = []
    for _ in range(n * 4):
        if len(r) >= n or not small:
            break
        toks = [t.v for t in p.t]
        lines = [t.line for t in p.t]
        m = rng.random()
        what = ""
        if m < 0.35:
            a, b = rng.choice(small), rng.choice(small)
            (x, y), (u, v) = p.spans[a], p.spans[b]
            what = "expression %s replaced by %s" % (" ".join(toks[x:y]), " ".join(toks[u:v]))
            toks[x:y] = ["("] + toks[u:v] + [")"]
            lines[x:y] = [lines[x]] * (v - u + 2)
        elif m < 0.5:
            i = rng.choice([i for i, t in enumerate(p.t) if t.k == "id"])
            new = rng.choice(ids)
            what = "name %s at line %d changed to %s" % (toks[i], lines[i], new)
            toks[i] = new
        elif m < 0.6:
            s = rng.choice(stmts)
            x, y = p.spans[s]
            what = "statement %s removed" % " ".join(toks[x:y])[:80]
            del toks[x:y], lines[x:y]
        elif m < 0.68:
            s = rng.choice(stmts)
            x, y = p.spans[s]
            what = "statement %s repeated" % " ".join(toks[x:y])[:80]
            toks[x:x] = toks[x:y]
            lines[x:x] = lines[x:y]
        elif m < 0.76:
            cs = [j for j in exprs if p.nodes[j]["k"] in ("call", "mcall", "dyn", "arr") and len(p.nodes[j].get("as", p.nodes[j].get("es", []))) > 0]
            if not cs: continue
            j = rng.choice(cs)
            as_ = p.nodes[j].get("as", p.nodes[j].get("es"))
            q = rng.choice(as_) - 1
            x, y = p.spans[q]
            if toks[x - 1] == "," and rng.random() < 0.5: x -= 1
            elif y < len(toks) and toks[y] == ",": y += 1
            elif len(as_) > 1: continue
            what = "argument %s removed" % " ".join(toks[x:y])
            del toks[x:y], lines[x:y]
        elif m < 0.86:
            ts = [j for j, z in enumerate(p.nodes) if z["k"] in ("tn", "ta", "tf")]
            if not ts: continue
            x, y = p.spans[rng.choice(ts)]
            new = rng.choice(tyn)
            what = "type %s at line %d changed to %s" % (" ".join(toks[x:y]), lines[x], new)
            toks[x:y] = [new]
            lines[x:y] = [lines[x]]
        elif m < 0.93:
            bs = [i for i, t in enumerate(p.t) if t.k == "op" and t.v in BINOPS or t.v in ("and", "or")]
            if not bs: continue
            i = rng.choice(bs)
            new = rng.choice(BINOPS + ["and", "or"])
            what = "operator %s at line %d changed to %s" % (toks[i], lines[i], new)
            toks[i] = new
        else:
            cs = [j for j, z in enumerate(p.nodes) if z["k"] == "case"]
            if not cs: continue
            j = rng.choice(cs)
            x, y = p.spans[j]
            if rng.random() < 0.5:
                what = "case name %s changed" % toks[x + 1]
                toks[x + 1] = rng.choice([p.nodes[q]["c"] for q in cs])
            else:
                body_ = p.nodes[j]["body"]
                e = max([p.spans[q - 1][1] for q in body_] + [y + 1]) if not body_ or p.nodes[body_[-1] - 1]["k"] in ("das", "as", "ret", "expr") else None
                if e is None: continue
                what = "case %s removed" % toks[x + 1]
                del toks[x:e], lines[x:e]
        out, line = [], 1
        for t, l in zip(toks, lines):
            if l > line:
                out.append("\n" * (l - line))
                line = l
            out.append(t + " ")
        s = "".join(out) + "\n"
        if parses(s):
            r.append(Item(s, what))
    return r
