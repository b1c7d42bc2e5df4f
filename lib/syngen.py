"""Texts for C20 and C21: programs with every syntactic form, their truncations and mutations, random sentences of ClaraSyntax, garbage."""
import random, re, unicodedata
import tygen as TG

KW = {"Fn": "fn", "Return": "return", "If": "if", "ElseIf": "elseif", "Else": "else", "True": "true", "False": "false", "Not": "not", "And": "and", "Or": "or", "Struct": "struct", "While": "while", "For": "for", "In": "in",
      "Enum": "enum", "Match": "match", "Case": "case", "Type": "type", "Das": ":=", "BRight": ">>", "Gte": ">=", "BLeft": "<<", "Lte": "<=", "DotDot": "..", "Eq": "==", "LParen": "(", "RParen": ")", "LBrace": "{", "RBrace": "}",
      "LBrack": "[", "RBrack": "]", "LGmet": "«", "RGmet": "»", "Hash": "#", "Question": "?", "Comma": ",", "Colon": ":", "Plus": "+", "Min": "-", "Mul": "*", "BNot": "~", "BXor": "^", "BOr": "|", "BAnd": "&", "Gt": ">", "Lt": "<",
      "Dot": ".", "As": "=", "Div": "/"}
ATOMS = {"Integer": ["1", "0", "42", "0x1F", "4611686018427387903"], "String": ['"a"', '""', '"é\\n"']}
IDS = ["i", "b", "s", "h", "c", "o", "p", "ai", "pr", "f", "x", "y", "v", "first", "length", "bump", "sum", "nop", "id", "two", "Point", "Duo", "Red", "Green", "Som", "Non", "int", "string", "point", "duo", "opt", "color", "println", "T", "main", "ov", "fst"]
EXPR = ["Identifier", "Integer", "String", "True", "LParen", "RParen", "LBrack", "RBrack", "Comma", "Question", "Colon", "Min", "Not", "BNot", "Plus", "Lt", "And", "Dot", "Fn", "As", "LBrace", "RBrace", "LGmet", "RGmet", "Type"]
STMT = ["Identifier", "Integer", "True", "LParen", "RParen", "Das", "As", "If", "ElseIf", "Else", "LBrace", "RBrace", "While", "For", "In", "DotDot", "Match", "Case", "Colon", "Return", "Fn", "Comma", "Eq"]
DECL = ["Fn", "Identifier", "LParen", "RParen", "Colon", "Comma", "LBrace", "RBrace", "EOF", "LGmet", "RGmet", "LBrack", "RBrack", "As", "Integer", "Struct", "Enum", "Hash", "Return"]


def alpha(ks): return "{" + ", ".join('"%s"' % k for k in ks) + "}"


def word(rng, k):
    if k == "Identifier": return rng.choice(IDS)
    if k in ATOMS: return rng.choice(ATOMS[k])
    return KW[k]


def render(rng, ks, head=0, layout=None):
    """tokens as text; the first `head' of them are replaced by a function head with parameters and local variables"""
    out = []
    if head:
        out.append("fn t(%s) {\n%s\n" % (TG.PARAMS, "\n".join(TG.LOCALS.values())))
    for k in ks[head:]:
        if k != "EOF": out.append(word(rng, k) + (layout or space)(rng))
    return "".join(out)


def space(rng):
    x = rng.random()
    return " " if x < .75 else "\n" if x < .9 else "  " if x < .94 else " // é\n" if x < .97 else "\n\n "


# programs that use every form of declaration, statement, expression and type at least once
FORMS = ["""#[RawValues] fn ext(a: int) int
struct one { a: int b: []string c: fn(int, bool) int }
struct two«A, B» { a: A b: opt«B» }
enum color { Red() Green(n: int, m: []int) }
enum opt«T» { Som(v: T) Non() }
fn main() { }
fn f«T»(x: T, g: fn(T) T) T = g(x)
fn h() fn() { return fn() { return } }
""", """fn main() {
 x := 1 + 2 * -3
 y := (x < 2 and true) or not false ? [1, 2] : [x]
 y[0] = ~x & 1 | 2 ^ 3 << 4 >> 5
 if x == 1 { x = 2 } elseif x >= 3 { } else { return }
 while x <= 3 { x = x + 1 }
 for i in 0..10 { println(i) }
 for e in y { println(e) }
 z := fn(a: int) int { return a }(3)
 w := fn(a: []int) []int = a
 println("s\\n".length - w(y)[0])
}
""", """enum t«A,B» { L(a: A) R(b: B) N() }
fn main() {
 v := L«int, string»(1)
 match v {
  case L(a): println(a)
  case R(b):
   println(b)
   if true { return }
  case N():
 }
 q := v.k().m(1, 2).n
 q.r.s[0] = [[1], [2]][1][0]
}
fn k«A,B»(e: t«A,B») t«A,B» = e
""", """#[ExtRet, RawValues]
fn a(x: fn(fn() int, []fn(int)) []int, y: opt«opt«int»») int
fn b() int { return a(fn(g: fn() int, h: []fn(int)) []int = [g()], Non«opt«int»»()) ? 1 : b() }
fn main() { b() }
"""]


def tokens(text):
    import front
    return front.tokenize(text)[0]


def splice(rng, toks):
    return "".join(t + space(rng) for t in toks)


def truncations(rng):
    r = []
    for f in FORMS:
        ts = [t.v for t in tokens(f)]
        for k in range(len(ts)):
            r.append((splice(rng, ts[:k]), "the first %d tokens of a program" % k))
    return r


def mutants(rng, n):
    r = []
    kinds = list(KW) + ["Identifier", "Integer", "String"]
    for f in FORMS:
        ts = [t.v for t in tokens(f)]
        jobs = [(i, op) for i in range(len(ts)) for op in ("del", "dup", "swap", "rep", "rep", "ins", "ins")]
        rng.shuffle(jobs)
        for i, op in jobs[:n]:
            x = list(ts)
            if op == "del": del x[i]
            elif op == "dup": x.insert(i, x[i])
            elif op == "swap" and i + 1 < len(x): x[i], x[i + 1] = x[i + 1], x[i]
            elif op == "rep": x[i] = word(rng, rng.choice(kinds))
            else: x.insert(i, word(rng, rng.choice(kinds)))
            r.append((splice(rng, x), "%s token %d (%s)" % (op, i, ts[i])))
    return r


def lexical(rng, n):
    """lexical faults anywhere"""
    r = []
    bad = ["$", "@", '"abc', '"a\\q"', "0x", "0xg", "'", "`", "%", "!", ";", "\\", "\"\\", "€", "\u00a0"]
    for _ in range(n):
        ts = [t.v for t in tokens(rng.choice(FORMS))]
        i = rng.randrange(len(ts) + 1)
        ts.insert(i, rng.choice(bad))
        r.append((splice(rng, ts), "a lexical error at token %d" % i))
    return r


def garbage(rng, n):
    r = []
    pieces = list(KW.values()) + IDS + ["1", '"', "\\", "é", "\x00", "\xff", "\ufeff", "\r\n", "\r", "\t", "//", "名", "𝛼", "0x", "9" * 25]
    for _ in range(n):
        x = rng.random()
        if x < .3: b = bytes(rng.randrange(256) for _ in range(rng.randint(0, 60)))
        elif x < .7: b = "".join(rng.choice(pieces) + rng.choice(["", " ", "\n"]) for _ in range(rng.randint(0, 40))).encode()
        else:
            b = bytearray(rng.choice(FORMS).encode())
            for _ in range(rng.randint(1, 4)):
                i = rng.randrange(len(b))
                if rng.random() < .5: b[i] = rng.randrange(256)
                else: del b[i:i + rng.randint(1, 6)]
            b = bytes(b)
        r.append((b, "garbage"))
    r += [(b"", "an empty file"), (b"\n", "an empty line"), (b"// c", "a comment"), (b" " * 5000, "spaces"), (b"fn main() { }" + b"\n" * 3000, "many lines"), (b"(" * 3000, "parentheses"), (b"fn main() { x := " + b"-" * 2000 + b"1 }", "minuses"),
          (b"fn main() { x := " + b"[" * 500 + b"1" + b"]" * 500 + b" }", "brackets"), (b"fn main() { " + b"if true { " * 300 + b"}" * 301, "nesting"), (b"fn main() { x := 1 " + b"+ 1 " * 3000 + b"}", "a long sum"),
          (b"fn main() { s := \"" + b"x" * 100000 + b"\" }", "a long string"), (b"fn " + b"m" * 50000 + b"() { }\nfn main() { }", "a long name"), (b"\xef\xbb\xbffn main() { }", "byte order mark")]
    return r


def chars(text):
    """code points and their classes as ClaraLex wants them"""
    c = [ord(x) for x in text]
    cl = [1 if x == "_" or unicodedata.category(x)[0] == "L" else 2 if unicodedata.category(x) == "Nd" else 0 for x in text]
    return c, cl


def relayout(rng, text, style):
    """the same tokens, laid out otherwise"""
    ts = [t.v for t in tokens(text)]
    lines = []
    if style == "line":                                     # everything on the first line
        return " ".join(ts)
    out = []
    for t in ts:
        x = rng.random()
        if style == "tall": sp = "\n" if x < .5 else "\n\n\n" if x < .6 else "\n   "
        elif style == "crlf": sp = " " if x < .7 else " // c\n" if x < .8 else "\n"
        else: sp = " " if x < .6 else "      " if x < .7 else "\n" if x < .85 else " // é 名 𝛼 \"\n  " if x < .95 else " // //\n"
        out.append(t + sp)
    s = "".join(out)
    if style == "wide": s = re.sub(r'"(\w?)"', '"é名\\1𝛼"', s)
    return rng.choice(["", "\n", "// é\n", "   "]) + s


STYLES = ["line", "tall", "crlf", "wild", "wide"]
