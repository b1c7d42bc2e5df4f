"""C22 lexing, decided by ClaraLex on token streams recorded from the real lexer."""
import base64, glob, itertools, json, os, random, re, subprocess, unicodedata
from common import *


def overlay_build(ctx, name, pkgdir, files):
    """builds a program that lives in /verif as package /repo/<pkgdir> (virtual); -> path of the binary"""
    ov = ctx.path(name + ".overlay.json")
    json.dump({"Replace": {os.path.join(REPO, pkgdir, os.path.basename(f)): f for f in files}}, open(ov, "w"))
    exe = ctx.path(name)
    r = subprocess.run(["go", "build", "-overlay", ov, "-o", exe, "./" + pkgdir], cwd=REPO, env=ctx.goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode: raise CheckError("cannot build %s: %s" % (name, r.stdout.decode(errors="replace")))
    return exe


def lex_inputs(ctx, r):
    ins = []
    u = lambda s: s.encode()
    # every text of up to three characters over one representative of each kind of character
    sym = [u(x) for x in ["a", "x", "0", "7", " ", "\n", "\r", '"', "\\", "/", ":", "=", ".", "<", ">", "-", "(", "{", "«", "é", "$", "_", "n", "#", "?", "~"]]
    for k in range(0, ctx.scale(4, 4)): ins += [b"".join(p) for p in itertools.product(sym, repeat=k)]
    # longer texts over the characters that interact
    groups = [['"', "\\", "n", "a", "\n"], ["0", "x", "1", "a", "g", " "], ["/", "\n", "a", '"', " "], ["<", ">", "=", ":", ".", "-"], ["é", "\n", '"', "«", "a", "$"],
              ["f", "n", " ", "(", "i", "1"], ["i", "f", "n", "o", "r", "_"], ["\r", "\n", " ", "a", "/"]]
    for g in groups:
        for k in (4, 5) + ((6,) if ctx.thorough else ()):
            xs = list(itertools.product([u(x) for x in g], repeat=k))
            if k == 5 and not ctx.thorough: xs = r.sample(xs, 1200)
            if k == 6: xs = r.sample(xs, 8000)
            ins += [b"".join(p) for p in xs]
    # keywords: whole words only, in every position
    words = ["fn", "return", "if", "elseif", "else", "true", "false", "not", "and", "or", "struct", "while", "for", "in", "enum", "match", "case", "type"]
    for w in words:
        for a, b in itertools.product(["", "_", "a", "9", "(", " ", "é", "Z", "\n"], repeat=2): ins.append(u(a + w + b))
        for k in range(1, len(w)): ins.append(u(w[:k])); ins.append(u(w[:k] + " " + w[k:])); ins.append(u(w[k:]))
        ins += [u(w.upper()), u(w.capitalize()), u(w + w), u(w + r.choice(words))]
    # every ASCII character and some others alone, after a name, a number, a string and a space, before a name
    for x in [bytes([k]) for k in range(1, 256)] + [u(chr(k)) for k in (0, 0xb5, 0xdf, 0x3b1, 0x4e2d, 0x1f600, 0x2028, 0xa0, 0xfeff, 0x20ac)]:
        for p in (b"", b"ab", b"12", b'"s"', b" ", b"0", b"\n", b"//"): ins.append(p + x); ins.append(p + x + b"b1")
    # characters of every general category, in every position of a name, a number and a string
    cats = {}
    for k in range(0x80, 0x30000):
        if not 0xD800 <= k < 0xE000: cats.setdefault(unicodedata.category(chr(k)), []).append(k)
    for c in sorted(cats):
        n = ctx.scale(14, 120) if c in ("Nd", "Lu", "Ll", "Lt", "Lm", "Lo", "No", "Nl", "Mn", "Mc") else 4
        for k in r.sample(cats[c], min(n, len(cats[c]))):
            x = chr(k)
            for f in ("%s", "a%s", "%sa", "a%sb", "_%s", "%s_", "1%s", "%s1", "1%s2", "0x%s", "0xa%sf", "fn%s", "%sfn", '"%s"', "//%s", "%s%s", "a%s%s(", "a %s b", "0%s", "x%s:=1", "if%sx"): ins.append(u(f.replace("%s", x)))
    return ins


def valid_text(b):
    try: return "\0" not in b.decode() and "\ufeff" not in b.decode()
    except UnicodeDecodeError: return False


PIECES = ["fn", "return", "if", "else", "x", "abc1", "_z", "éa", "日本", "0", "12", "0x1F", "0xabc", '"s"', '"a\\n\\"b"', '"€\nß"', "// c // \"", "(", ")", "{", "}", "[", "]", "«", "»", ",", ":", ":=", "=", "==", "<", "<=", "<<", ">", ">=", ">>", ".", "..", "+", "-", "*", "/", "&", "|", "^", "~", "#", "?", " ", "  ", "\n", "\r\n", "\n\n", '"', "\\", "$", "@", "\t", "0x", '"\\q"', "'"]


def c22(ctx):
    r = random.Random(ctx.seed * 7919 + 22)
    for alpha, n in [("{97, 48, 120, 49, 1635}", 6), ("{34, 92, 110, 97, 10}", ctx.scale(6, 7)), ("{47, 10, 97, 32, 34}", 5), ("{60, 62, 61, 58, 46}", 5), ("{97, 10, 233, 34, 36, 171, 32, 45}", ctx.scale(4, 5))]:
        res = tlc(ctx, "MCLex", "SPECIFICATION Spec\nINVARIANT Maximal\nINVARIANT Position\nINVARIANT Stops\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Alphabet = %s\n MaxLen = %d\n" % (alpha, n))
        need_ok(res)
    try: exe = overlay_build(ctx, "lexdump", "verif_lexdump", [os.path.join(VERIF, "harness", "lexdump", "main.go")])
    except CheckError as e:      # the package's interface is another one: what the command lists, on fewer texts
        from sys_c import lex_listings
        ctx.note = "lexer observed through clara -lex: %s" % str(e)[:300]
        ok = [x for x in lex_inputs(ctx, r) if valid_text(x)]
        ok = r.sample(ok, ctx.scale(3500, 20000)) + [x for x in ("".join(r.choice(PIECES[:52]) for _ in range(r.randint(3, 40))).encode() for _ in range(ctx.scale(500, 4000)))]
        lex_listings(ctx, [x.decode() for x in dict.fromkeys(ok)])
        return
    ins = lex_inputs(ctx, r)
    for _ in range(ctx.scale(1500, 20000)):
        ins.append("".join(r.choice(PIECES[:52] if r.random() < .9 else PIECES) for _ in range(r.randint(3, 40))).encode())
    for f in sorted(glob.glob(os.path.join(REPO, "install", "*", "*.clara")) + glob.glob(os.path.join(REPO, "tests", "*.clara"))):
        b = open(f, "rb").read()
        ins.append(b)
        for _ in range(ctx.scale(1, 6)):
            k = r.randrange(len(b) + 1)
            ins.append(b[:k] + r.choice(PIECES).encode() + b[k + r.randrange(3):])
            ins.append(b[:k])
    ins = list(dict.fromkeys(ins))
    p = subprocess.run([exe], input=json.dumps([base64.b64encode(x).decode() for x in ins]).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
    if p.returncode:
        ctx.violation("the lexer crashes: %s" % p.stderr.decode(errors="replace")[:1500], {"stderr.txt": p.stderr})
        return
    d = json.loads(p.stdout)["traces"]
    parts = [d[i::ctx.scale(2, 8)] for i in range(ctx.scale(2, 8))]
    idx = [list(range(len(d)))[i::len(parts)] for i in range(len(parts))]
    for part, ix in zip(parts, idx):
        f = ctx.path("lex.json")
        json.dump({"traces": part}, open(f, "w"))
        res = tlc(ctx, "LexTrace", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANT Chunk = 300\n", env={"LEX_JSON": f}, timeout=800, mem="10g")
        need_ok(res)
        m = re.search(r"(\d+) distinct states", res.text.replace(",", ""))
        bad = {int(a): (b, int(k), int(q)) for a, b, k, q in re.findall(r'"VERDICT (\d+) (\S+) (\d+) (\d+)"', res.text)}
        ctx.validated += len(part) - len(bad)
        ctx.count("texts", len(part))
        ctx.count("tokens", sum(len(x["t"]) for x in part))
        for i, (why, k, q) in sorted(bad.items()):
            t = part[i - 1]
            text = ins[ix[i - 1]]
            ctx.violation("lexing %r: token %d at character %d (%s): recorded %s" % (text[:200], k, q, why, [[a, b, c, "".join(map(chr, v))] for a, b, c, v in t["t"][max(0, k - 2):k + 1]]), {"input.clara": text, "trace.json": json.dumps(t)})
            if ctx.too_many(6): return
    ctx.samples.append({"text": repr(ins[3000]), "tokens": [x[0] for x in d[3000]["t"]]})
