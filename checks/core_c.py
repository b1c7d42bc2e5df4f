"""C11-C13, C25, C28: bytes, strings, conversions, panics, external functions."""
import random
from clara import *
from core import *
from gen import *
from forms import *
import forms4
from core_a import I, V, U, add_cases
from core_b import S, sv

BAD = [-1, -2, -7, -8, -9, -16, -24, 1 << 31, 1 << 32, (1 << 32) + 1, -(1 << 31), -(1 << 32), 1 << 61, MAXI, MAXI - 1, MINI, MINI + 1, -(1 << 60), (1 << 60), (1 << 58) + 1, (1 << 59)]


def bv(n): return var(n, BYTES)


def either(r, f, args, t):
    """f(x, ...) or x.f(...)"""
    return dot(args[0], f, args[1:], t) if r.random() < .5 and args[0].k not in ("int",) else call(f, args, t)


def show_string(p):
    """dumpS(s): length and every byte"""
    p.add(Fn("dumpS", [("s", S)], NOTHING, [out(fld(sv("s"), "length", INT)), das("i", lit(0)),
                                            while_(bin_("<", V("i"), fld(sv("s"), "length", INT)), [out(call("byte", [sv("s"), V("i")], INT)), as_(V("i"), bin_("+", V("i"), lit(1)))])]))
    p.add(Fn("dumpB", [("b", BYTES)], NOTHING, [out(call("length", [bv("b")], INT)), range_("i", lit(0), call("length", [bv("b")], INT), [out(call("get", [bv("b"), V("i")], INT))])]))


def dumpS(e): return expr(call("dumpS", [e], NOTHING))
def dumpB(e): return expr(call("dumpB", [e], NOTHING))


def c11(ctx):
    r = random.Random(ctx.seed * 7919 + 11)
    files = []
    for k in range(ctx.scale(10, 80)):
        p = Prog()
        show_string(p)
        p.add(Struct("two", [("a", BYTES), ("b", BYTES)]))
        p.add(Fn("poke", [("b", BYTES), ("i", INT), ("v", INT)], NOTHING, [expr(call("set", [bv("b"), V("i"), V("v")], NOTHING))]))
        bodies = []
        for c in range(8):      # histories over two buffers and an alias
            n, m = r.choice([1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17]), r.choice([1, 2, 8])
            ss = [das("a", call("Bytes", [lit(n)], BYTES)), das("b", call("Bytes", [lit(m)], BYTES)), das("al", bv("a")), das("t", call("Two", [bv("a"), bv("b")], ST("two")))]
            for _ in range(r.randint(4, 12)):
                which, ln = r.choice([("a", n), ("b", m), ("al", n)])
                o = bv(which)
                if r.random() < .15: o = fld(var("t", ST("two")), "a" if which != "b" else "b", BYTES)
                i = lit(r.choice([0, ln - 1, r.randrange(ln)]))
                v = I(r.choice([0, 1, -1, 127, 128, 129, 255, 256, 257, -128, -129, -255, -256, 1000, MAXI, MINI, 1 << 32, r.getrandbits(30)]))
                kk = r.randrange(6)
                if kk < 3: ss.append(expr(either(r, "set", [o, i, v], NOTHING)))
                elif kk == 3: ss.append(expr(call("poke", [o, i, v], NOTHING)))
                elif kk == 4: ss.append(expr(call("set", [o, i, either(r, "get", [bv("b"), lit(r.randrange(m))], INT)], NOTHING)))
                else: ss.append(out(bin_("+", either(r, "get", [o, i], INT), either(r, "get", [o, lit(r.randrange(ln))], INT))))
            ss += [dumpB(bv("a")), dumpB(bv("b")), dumpB(bv("al"))]
            bodies.append(ss)
        for c in range(5):      # string bytes
            w = r.choice(WORDS + [bytes(range(1, 9)), bytes(range(120, 136)), bytes(range(248, 256)), b"x\x00y"])
            ss = [das("s", slit(w)), dumpS(sv("s")), das("u", call("append", [sv("s"), slit(r.choice(WORDS))], S)), dumpS(sv("u")), dumpS(sv("s"))]
            bodies.append(ss)
        for c in range(14):     # bad indexes
            n = r.choice([0, 1, 2, 5, 8])
            bad = r.choice(BAD + [n, n + 1, n + 7, n + 8] * 2)
            st = r.random() < .5
            o = (slit(b"x" * n) if st else call("Bytes", [lit(n)], BYTES))
            T = S if st else BYTES
            ss = [out(slit("before")), das("o", o), das("ix", r.choice([I(bad), bin_("-", I(bad + 1), lit(1)) if bad < MAXI else I(bad)])), das("z", lit(1))]
            acc = either(r, "byte" if st else "get", [var("o", T), V("ix")], INT)
            kk = r.randrange(5)
            if kk == 0: ss += [out(acc)]
            elif kk == 1 and not st: ss += [expr(either(r, "set", [bv("o"), V("ix"), lit(65)], NOTHING))]
            elif kk == 2 and not st: ss += [if_([(true(), [expr(call("poke", [bv("o"), V("ix"), lit(1)], NOTHING))])])]
            elif kk == 3: ss += [das("f", lam([("q", INT)], INT, expr=bin_("+", call("byte" if st else "get", [var("o", T), V("q")], INT), lit(1)))), out(call("f", [V("ix")], INT))]
            else: ss += [while_(bin_("<", V("z"), lit(3)), [out(V("z")), as_(V("z"), bin_("+", V("z"), acc))])]
            ss += [out(slit("after"))]
            bodies.append(ss)
        files.append(File(p, add_cases(p, bodies)))
    for k in range(ctx.scale(3, 30)):
        files.append(general_file(r, cases=10, bytes=0.6, strings=0.3, depth=3))
    check_core(ctx, files, what="byte access")


def rstr(r):
    x = r.random()
    if x < .5: return r.choice(WORDS)
    if x < .8: return bytes(r.choice(b"ab") for _ in range(r.randint(0, 8)))
    return bytes(r.choice([0, 1, 9, 10, 13, 31, 32, 34, 39, 92, 96, 127, 128, 200, 255]) for _ in range(r.randint(1, 6)))


def lit_ok(bs):
    """bytes that may appear in a string literal: valid text other than the quote handled by escapes"""
    return slit(bs)


def c12(ctx):
    r = random.Random(ctx.seed * 7919 + 12)
    files = []
    for k in range(ctx.scale(10, 80)):
        p = Prog()
        show_string(p)
        bodies = []
        # every single byte in a literal
        lo = r.choice(range(0, 256, 32))
        bodies.append([dumpS(slit(bytes(range(lo, lo + 32)))), dumpS(slit(bytes(reversed(range(lo, lo + 32)))))])
        # literals that differ from each other in one place or in their length only
        n = r.choice([3, 8, 15, 17, 33, 65, 66, 80, 130, 257, 300])
        base = bytes(r.choice(b"abcdefghij0123 ") for _ in range(n))
        near = [base, base[:-1] + b"!", b"!" + base[1:], base[:n // 2] + b"!" + base[n // 2 + 1:], base + b"!", base[:-1], base[1:], b"!" + base, base.upper(), base + b"\0", b"\0" + base, base + base, base[::-1], base + b"\n", base + b"\\n", base]
        r.shuffle(near)
        bodies.append([out(slit(x)) if b"\0" not in x else dumpS(slit(x)) for x in near] + [out(call("Equals", [slit(near[0]), slit(x)], BOOL)) for x in near[1:]])
        for c in range(8):
            ss = [das("s%d" % j, slit(rstr(r))) for j in range(3)]
            vals = [s.e.v for s in ss]
            X = lambda: r.randrange(3)
            for _ in range(r.randint(3, 6)):
                i, j = X(), X()
                a, b = sv("s%d" % i), sv("s%d" % j)
                kk = r.randrange(8)
                if kk == 0: ss.append(dumpS(either(r, "append", [a, b], S)))
                elif kk == 1:
                    ss.append(out(either(r, "Equals", [a, b], BOOL)))
                    ss.append(out(call("Equals", [a, slit(vals[i])], BOOL)))
                    w = bytearray(vals[i])
                    if w:
                        w[r.randrange(len(w))] ^= r.choice([1, 32, 128])
                        ss.append(out(call("Equals", [a, slit(bytes(w))], BOOL)))
                        ss.append(out(call("Equals", [a, slit(vals[i][:-1])], BOOL)))
                elif kk == 2:
                    n = len(vals[i])
                    x = r.randint(0, n)
                    y = r.randint(x, n)
                    ss.append(dumpS(either(r, "Substring", [a, lit(x), lit(y)], S)))
                elif kk in (3, 4):
                    src = vals[i]
                    if len(src) > 0 and r.random() < .7:
                        x = r.randrange(len(src))
                        sub = src[x:x + r.randint(1, 3)]
                        if r.random() < .3: sub = sub + b"q"
                    else: sub = r.choice([b"a", b"ab", b"b", b"aab", b"zz"])
                    ss.append(out(either(r, "IndexOf", [a, slit(sub)], INT)))
                    for f in sorted({0, 1, len(src), len(src) + 1, r.randint(0, len(src) + 3)}): ss.append(out(either(r, "IndexOf", [a, slit(sub), lit(f)], INT)))
                elif kk == 5:
                    # the result of one operation is input of the next
                    ss.append(dumpS(call("Substring", [call("append", [a, b], S), lit(min(1, len(vals[i]))), bin_("+", fld(a, "length", INT), fld(b, "length", INT))], S)))
                elif kk == 6:
                    x = call("append", [call("append", [a, b], S), a], S)
                    ss += [das("t%d" % len(ss), x), dumpS(a), out(fld(x, "length", INT))]
                else:
                    ss.append(as_(a, call("append", [a, b], S)))
                    vals[i] = vals[i] + vals[j]
                    if len(vals[i]) > 120:
                        ss.append(as_(a, slit("cut")))
                        vals[i] = b"cut"
            for j in range(3): ss.append(dumpS(sv("s%d" % j)))
            bodies.append(ss)
        for c in range(6):      # byte buffers
            cap = r.choice([0, 0, 1, 2, 3, 4, 7, 8, 16, 33])
            B = var("b", BUF)
            ss = [das("b", call("NewByteBuffer", [lit(cap)], BUF)), das("al", B), das("keep", slit(""))]
            size = 0
            for _ in range(r.randint(3, 10)):
                kk = r.randrange(8)
                if kk <= 2:
                    w = rstr(r)
                    if len(w) > 20: w = w[:20]
                    ss.append(expr(either(r, "append", [B, slit(w)], BUF)))
                    size += len(w)
                elif kk == 3:
                    ss.append(expr(either(r, "append", [B, I(r.choice([0, 1, 65, 127, 128, 200, 255, 256, -1, 321]))], NOTHING)))
                    size += 1
                elif kk == 4:
                    x = r.randint(0, size)
                    ss.append(dumpS(either(r, "substring", [B, lit(x), lit(r.randint(0, size - x))], S)))
                elif kk == 5:
                    ss.append(as_(sv("keep"), either(r, "toString", [B], S)))
                elif kk == 6:
                    ss += [out(call("size", [B], INT)), out(fld(B, "size", INT))]
                else:
                    if r.random() < .4:
                        ss.append(expr(either(r, "reset", [B], NOTHING)))
                        size = 0
                    else:
                        ss.append(expr(dot(dot(dot(B, "append", [slit("x")], BUF), "append", [slit("yz")], BUF), "append", [lit(7)], NOTHING)))
                        size += 4
            ss += [out(call("size", [B], INT)), dumpS(call("toString", [B], S)), dumpS(call("toString", [var("al", BUF)], S)), dumpS(sv("keep"))]
            bodies.append(ss)
        for c in range(4):      # panics of the buffer and string functions
            B = var("b", BUF)
            ss = [das("b", call("NewByteBuffer", [lit(2)], BUF)), expr(call("append", [B, slit("abc")], BUF)), out(slit("before"))]
            ss.append(dumpS(r.choice([call("substring", [B, lit(-1), lit(1)], S), call("substring", [B, lit(0), lit(-1)], S), call("substring", [B, lit(2), lit(2)], S), call("substring", [B, lit(4), lit(0)], S),
                                      call("substring", [B, lit(1), lit(1000)], S), call("Substring", [slit("abc"), lit(2), lit(1)], S), call("substring", [B, I(MINI), lit(1)], S), call("Substring", [slit("abc"), lit(0), lit(-3)], S)])))
            ss.append(out(slit("after")))
            bodies.append(ss)
        # bytes to string
        n = r.choice([1, 4, 9])
        ss = [das("y", call("Bytes", [lit(n)], BYTES))]
        for j in range(n): ss.append(expr(call("set", [bv("y"), lit(j), lit(r.randrange(256))], NOTHING)))
        x = r.randint(0, n)
        ss += [das("s", call("toString", [bv("y")], S)), expr(call("set", [bv("y"), lit(0), lit(9)], NOTHING)), dumpS(sv("s")), dumpS(call("toString", [bv("y"), lit(x)], S)),
               dumpS(call("toString", [bv("y"), lit(x), lit(r.randint(0, n - x))], S)), dumpB(bv("y"))]
        bodies.append(ss)
        # a long string built by doubling, by single bytes in a buffer
        big = r.choice([60, 130, 300])
        bodies.append([das("s", slit("ab")), das("i", lit(0)), while_(bin_("<", fld(sv("s"), "length", INT), lit(big)), [as_(sv("s"), call("append", [sv("s"), call("toString", [V("i")], S)], S)), as_(V("i"), bin_("+", V("i"), lit(1)))]), out(sv("s")),
                       das("b", call("NewByteBuffer", [lit(r.choice([0, 1, 16]))], BUF)), range_("j", lit(0), lit(big), [expr(call("append", [var("b", BUF), bin_("+", lit(33), call("mod", [V("j"), lit(90)], INT))], NOTHING))]), out(call("toString", [var("b", BUF)], S))])
        files.append(File(p, add_cases(p, bodies)))
    for k in range(ctx.scale(3, 30)):
        files.append(general_file(r, cases=10, strings=0.8, depth=4))
    check_core(ctx, files, what="strings and byte buffers")


def c13(ctx):
    r = random.Random(ctx.seed * 7919 + 13)
    files = []
    nums = sorted(set(U + [s * v for v in BOUNDARY for s in (1, -1)] + [10 ** k + d for k in range(0, 19) for d in (-1, 0, 1) if 10 ** k + d <= MAXI] + [-(10 ** k) for k in range(1, 19)]))
    for k in range(ctx.scale(8, 80)):
        p = Prog()
        show_string(p)
        bodies = []
        if k == 0: chunks = [nums[i:i + 30] for i in range(0, len(nums), 30)]
        else: chunks = [[(r.getrandbits(63) - (1 << 62)) >> r.choice([0, 0, 3, 20, 31, 40, 55]) for _ in range(20)] for _ in range(3)]
        for ch in chunks:
            each_ = lambda b: [das("xs", arr([I(v) for v in ch])), each("x", var("xs", ARR(INT)), b)]
            bodies.append(each_([out(call("toString", [V("x")], S)), out(V("x")), expr(call("print", [V("x")], NOTHING)), out(fld(dot(V("x"), "toString", [], S), "length", INT))]))
            bodies.append(each_([expr(call("printHex", [V("x")], NOTHING)), expr(call("printHexPadded", [V("x")], NOTHING))]))
            bodies.append([das("xs", arr([I(v) for v in r.sample(ch, min(len(ch), 8))])), each("x", var("xs", ARR(INT)), [out(either(r, "toBinary", [V("x")], S))])])
            ms = [m for m in r.sample(U, 8) + [1, -1, 2, 10] if m]
            bodies.append([das("xs", arr([I(v) for v in r.sample(ch, min(len(ch), 12))])), das("ms", arr([I(v) for v in ms])), each("x", var("xs", ARR(INT)), [each("m", var("ms", ARR(INT)), [out(either(r, "mod", [V("x"), V("m")], INT))])])])
        ss = []
        for _ in range(10):
            w = rstr(r) if r.random() < .6 else bytes(r.getrandbits(8) for _ in range(r.randint(0, 12)))
            ss.append(out(either(r, "fnv1a", [slit(w)], INT)))
        bodies.append(ss)
        lo = (k * 16) % 256
        bodies.append([out(call("fnv1a", [slit(bytes([b]))], INT)) for b in range(lo, lo + 16)])
        bodies.append([out(call("toString", [true()], S)), out(call("toString", [false()], S)), out(true()), out(false())])
        files.append(File(p, add_cases(p, bodies)))
    check_core(ctx, files, what="conversions")


def c25(ctx):
    r = random.Random(ctx.seed * 7919 + 25)
    files = []
    OPT = EN("sw")
    for k in range(ctx.scale(10, 80)):
        p = Prog()
        p.add(Enum("sw", [("Aa", [("n", INT)]), ("Bb", [])]))
        p.add(Struct("holder", [("f", FN([INT], INT)), ("n", INT)]))
        enders = []

        def ender(tag):
            """statements that end the program, or (some) not"""
            kk = r.randrange(12)
            w = r.choice(WORDS[:8] + [b"%d %s %n", b"100%", b"long " * 20])
            if kk <= 2: return [expr(call("panic", [slit(w)], NOTHING))]
            if kk == 3: return [expr(call("assert", [false(), slit(w)], NOTHING))]
            if kk == 4: return [expr(call("assert", [bin_("<", V("x"), lit(-99)), call("append", [slit(w), slit("!")], S)], NOTHING))]
            if kk == 5: return [expr(call("exit", [lit(r.choice([0, 1, 2, 7, 42, 127, 128, 200, 255]))], NOTHING))]
            if kk == 6: return [das("z%d" % tag, arr([lit(1)])), out(idx(var("z%d" % tag, ARR(INT)), lit(r.choice([1, 5, -1]))))]
            if kk == 7: return [out(call("byte", [slit("abc"), lit(r.choice([3, -1, 100]))], INT))]
            if kk == 8: return [expr(call("assert", [bin_("==", V("x"), V("x")), slit("never")], NOTHING))]     # holds
            if kk == 9: return [expr(call("assert", [true(), slit("never")], NOTHING)), out(slit("passed"))]
            if kk == 10: return [expr(call("panic", [call("append", [call("toString", [V("x")], S), slit(w)], S)], NOTHING))]
            return [out(slit("no end"))]

        def nest(d, tag):
            """ender nested d deep in control flow; x is an int variable"""
            if d == 0: return ender(tag) + [out(slit("after%d" % tag))]
            inner = nest(d - 1, tag * 10 + 1)
            kk = r.randrange(9)
            b = [out(lit(tag))] if r.random() < .6 else []
            a = [out(slit("a%d" % tag))] if r.random() < .6 else []
            if kk == 0: s = [if_([(bin_(">=", V("x"), lit(-99)), inner)], [out(slit("else"))])]
            elif kk == 1: s = [range_("i%d" % tag, lit(0), lit(3), [out(V("i%d" % tag)), if_([(bin_("==", V("i%d" % tag), lit(r.randrange(3))), inner)])])]
            elif kk == 2: s = [das("w%d" % tag, lit(0)), while_(bin_("<", V("w%d" % tag), lit(2)), [as_(V("w%d" % tag), bin_("+", V("w%d" % tag), lit(1)))] + inner)]
            elif kk == 3: s = [each("e%d" % tag, arr([lit(4), lit(5)]), [out(V("e%d" % tag))] + inner)]
            elif kk == 4: s = [match(call("Aa", [V("x")], OPT), [("Bb", [], [out(slit("bb"))]), ("Aa", ["m%d" % tag], inner)])]
            elif kk == 5:
                p.add(Fn("deep%d_%d" % (len(p.decls), tag), [("x", INT)], INT, inner + [ret(V("x"))]))
                s = [out(bin_("+", lit(1), call(p.decls[-1].name, [V("x")], INT)))]
            elif kk == 6:
                s = [das("f%d" % tag, lam([("x", INT)], INT, body=inner + [ret(V("x"))])), out(call("f%d" % tag, [lit(3)], INT))]
            elif kk == 7:
                s = [das("h%d" % tag, call("Holder", [lam([("x", INT)], INT, body=inner + [ret(V("x"))]), lit(1)], ST("holder"))), out(dot(var("h%d" % tag, ST("holder")), "f", [lit(3)], INT))]
            else:
                nm = "rec%d_%d" % (len(p.decls), tag)
                p.add(Fn(nm, [("x", INT), ("n", INT)], INT, [if_([(bin_(">", V("n"), lit(0)), [ret(bin_("+", V("n"), call(nm, [V("x"), bin_("-", V("n"), lit(1))], INT)))])])] + inner + [ret(V("x"))]))
                s = [out(call(nm, [V("x"), lit(r.choice([0, 1, 5, 30]))], INT))]
            return b + s + a
        bodies = []
        for c in range(22):
            bodies.append([das("x", lit(r.randint(-5, 9)))] + nest(r.choice([0, 1, 1, 2, 2, 3, 4]), c + 1) + [out(slit("end"))])
        # effects of arguments before a panic in a later argument
        p.add(Fn("boom", [("m", S)], INT, [expr(call("panic", [sv("m")], NOTHING)), ret(lit(0))]))
        p.add(Fn("say", [("n", INT)], INT, [out(V("n")), ret(V("n"))]))
        p.add(Fn("three", [("a", INT), ("b", INT), ("c", INT)], INT, [out(slit("three")), ret(lit(0))]))
        for c in range(3):
            args = [call("say", [lit(1)], INT), call("boom", [slit("arg")], INT), call("say", [lit(2)], INT)]
            r.shuffle(args)
            bodies.append([r.choice([lambda: out(call("three", args, INT)), lambda: das("q", arr(args)), lambda: out(bin_("+", args[0], bin_("*", args[1], args[2])))])(), out(slit("not reached"))])
        # no output at all, no trailing newline, empty body
        bodies.append([expr(call("print", [slit("no newline")], NOTHING))])
        bodies.append([])
        bodies.append([expr(call("print", [slit("partial")], NOTHING)), expr(call("exit", [lit(3)], NOTHING)), out(slit("x"))])
        bodies.append([range_("i", lit(0), lit(600), [expr(call("print", [slit("0123456789")], NOTHING))]), expr(call("panic", [slit("after much output")], NOTHING))])
        files.append(File(p, add_cases(p, bodies)))
    for k in range(ctx.scale(3, 30)):
        files.append(general_file(r, cases=10, oob=0.1, returns=0.3, blocks=3, closures=0.3))
    files += forms4.main_files(r, ctx.thorough)
    check_core(ctx, files, what="panics and exits")


def c28(ctx):
    r = random.Random(ctx.seed * 7919 + 28)
    files = []
    T = PAR("T")
    for k in range(ctx.scale(8, 80)):
        p = Prog()
        ex = [raw_decl(i) for i in range(7)]
        ex += [Fn("vstr", [("s", S), ("n", INT), ("t", S)], INT, extern=True, attr="RawValues"),
               Fn("vmix", [("n", INT), ("s", S), ("m", INT), ("a", ARR(INT))], INT, extern=True, attr="RawValues"),
               Fn("vbytes", [("b", BYTES), ("n", INT)], INT, extern=True, attr="RawValues"),
               Fn("vid", [("x", INT)], INT, extern=True), Fn("vids", [("x", S)], S, extern=True),
               Fn("vsecond", [("x", INT), ("y", INT), ("z", INT)], INT, extern=True),
               Fn("vtick", [("x", INT)], INT, extern=True, attr="RawValues")]
        p.add(Struct("six", [("m%d" % j, INT) for j in range(6)]))
        for n in range(0, 7):   # frames with different numbers of locals: both stack alignments
            ps = [("a%d" % j, INT) for j in range(n)]
            b = [das("l%d" % j, bin_("+", lit(j), V("a%d" % (j % n)) if n else lit(1))) for j in range(r.randint(0, 5))]
            x = [V(s.n) for s in b] + [V(a) for a, _ in ps] + [lit(5)]
            m = r.randint(0, 6)
            b += [das("got", call("vraw%d" % m, [r.choice(x) for _ in range(m)], INT))] + [out(v) for v in x[:-1]] + [ret(bin_("+", V("got"), r.choice(x)))]
            p.add(Fn("lev%d" % n, ps, INT, b))
        g = Gen(r, tick=0.15, strings=0.15, structs=0, enums=0, arrays=0.15, calls=0.5, div=0.3, ternary=0.2, closures=0.15, ext=0.6, bigints=0.4, depth=4)
        g.prog = p
        g.fns = [("lev%d" % n, [INT] * n, INT) for n in range(7)]
        g.extset = {e.name for e in ex}
        bodies = []
        for c in range(10):
            env = [Var("a", INT), Var("b", INT), Var("s", S)]
            ss = [das("a", I(r.choice(U))), das("b", I(r.choice(U))), das("s", slit(r.choice([w for w in WORDS if b"\0" not in w])))]
            W = lambda: g.e(S, env, 2)
            E = lambda d=2: g.e(INT, env, d)
            for _ in range(4):
                kk = r.randrange(9)
                if kk <= 1: ss.append(out(g.ext_call(env, 4)))
                elif kk == 2: ss.append(out(call("vstr", [W(), E(), W()], INT)))
                elif kk == 3:
                    n = r.randint(1, 5)
                    ss.append(out(call("vmix", [lit(n), W(), E(), arr([E(1) for _ in range(n)])], INT)))
                elif kk == 4:
                    n = r.randint(1, 9)
                    q = g.fresh("y")
                    ss += [das(q, call("Bytes", [lit(n)], BYTES)), expr(call("set", [bv(q), lit(n - 1), lit(r.randrange(256))], NOTHING)), out(call("vbytes", [bv(q), lit(n)], INT))]
                elif kk == 5: ss += [out(call("vid", [E()], INT)), out(call("vids", [W()], S)), out(call("vsecond", [E(1), E(), E(1)], INT))]
                elif kk == 6:
                    # live intermediates around the call
                    ss.append(out(bin_("-", bin_("*", V("a"), lit(3)), bin_("+", call("vtick", [bin_("^", V("b"), E(1))], INT), bin_("*", V("b"), call("vid", [V("a")], INT))))))
                elif kk == 7:
                    q = g.fresh("q")
                    ss += [das(q, call("Six", [call("vtick", [E(1)], INT) for _ in range(6)], ST("six")))] + [out(fld(var(q, ST("six")), "m%d" % j, INT)) for j in range(6)]
                else:
                    q = g.fresh("f")
                    ss += [das(q, lam([("u", INT)], INT, body=[das("loc", call("vraw3", [V("u"), V("a"), V("b")], INT)), out(V("a")), ret(bin_("+", V("loc"), V("u")))])), out(call(q, [E(1)], INT)), out(call(q, [call("vraw2", [lit(1), lit(2)], INT)], INT))]
            ss += [out(V("a")), out(V("b")), out(sv("s"))]
            bodies.append(ss)
        # deep recursion with an external call at every level
        p.add(Fn("down", [("n", INT), ("acc", INT)], INT, [if_([(bin_("==", V("n"), lit(0)), [ret(call("vraw2", [V("acc"), V("n")], INT))])]), das("h", call("vraw1", [V("n")], INT)), ret(bin_("+", V("h"), call("down", [bin_("-", V("n"), lit(1)), bin_("+", V("acc"), V("h"))], INT)))]))
        bodies.append([out(call("down", [lit(r.randint(3, 12)), lit(1)], INT))])
        bodies.append([out(call("vid", [I(v)], INT)) for v in U] + [out(call("vtick", [I(v)], INT)) for v in U])
        files.append(File(p, add_cases(p, bodies), externs=ex))
    check_core(ctx, files, what="external functions")
