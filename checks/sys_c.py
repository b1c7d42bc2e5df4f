"""C30: options that show intermediate results change nothing else.  C31: the clock."""
import ast, json, os, random, re, shutil
from clara import *
from common import *
from core import *
from gen import *
import judge as J, tygen as TG, declgen as DG, syngen as SG
from judge import Item
from forms import V, MAXI, pairwise
from core_a import add_cases

SHOW = [[], ["-lex"]], [[], ["-types"]], [[], ["-asm"]], [[], ["-in"]], [[], ["-ast", "."], ["-ast", "main|case"], ["-ast", "nomatch"], ["-ast", "^[(:=]"], ["-ast", "x"]]


def option_sets(r):
    """sets of options: every two together"""
    rows = [[o for k, j in enumerate(q) for o in SHOW[k][j]] for q in pairwise(r, *[len(x) for x in SHOW])]
    rows += [o for k in range(len(SHOW)) for o in SHOW[k][1:]]
    return [x for x in rows if x]


def outcome(r):
    """status, executable, diagnostics in order (positions and texts, without the scratch directory)"""
    o = r["out"]
    k = o.rfind(b"\nErrors\n")
    d = os.path.dirname(r["file"]).encode()
    return [str(r["rc"]), "executable" if r["exe"] else "none"] + ([x.decode(errors="replace") for x in re.sub(rb"\.\d+\.S", b".S", o[k:].replace(d, b"")).splitlines() if x.strip()] if k >= 0 else [])


def listing(r):
    """the tokens shown for the program"""
    o = re.sub(r"\x1b\[[0-9;]*m", "", r["out"].decode(errors="replace"))
    k = o.rfind("\nLexical Tokens\n")
    if k < 0: return []
    toks = []
    for l in o[k:].split("\n")[2:]:
        m = re.match(re.escape(r["file"]) + r":(\d+):(\d+):, (\"(?:[^\"\\]|\\.)*\"|<[^<>]*>|\S+)(?: .*)?$", l)
        if not m: break
        v = m.group(3)
        if v.startswith('"'):
            try: v = ast.literal_eval(v)
            except (ValueError, SyntaxError): return None
        elif v.startswith("<"): v = v[1:-1]
        toks.append([int(m.group(1)), int(m.group(2)), [ord(x) for x in v]])
    return toks


def judge_options(ctx, progs, runs):
    """-> verdicts of OptionTrace, one per run"""
    f = os.path.join(ctx.sub("op"), "d.json")
    json.dump({"progs": progs, "runs": runs}, open(f, "w"))
    res = tlc(ctx, "OptionTrace", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", env={"OPT_JSON": f})
    need_ok(res)
    got = {int(a): b for a, b in re.findall(r'"VERDICT (\d+) (\S+)"', res.text)}
    for k in range(1, len(runs) + 1):
        if k not in got: raise CheckError("no verdict for run %d\n%s" % (k, tail(res.text)))
    return got


def lex_listings(ctx, texts):
    """tokens as listed by the command (for C22, should the lexer's own interface be another one)"""
    ctx.build()
    env = J.quick_gcc(ctx)
    rs = ctx.pool(lambda t: ctx.compile(t.encode(), env=env, args=["-lex"], timeout=20), texts)
    progs, runs = [], []
    for k, (t, x) in enumerate(zip(texts, rs)):
        c, cl = SG.chars(t)
        toks = listing(x)
        progs.append({"c": c, "cl": cl, "base": outcome(x)})
        runs.append({"p": k + 1, "out": outcome(x), "lex": toks is not None, "toks": toks or []})
        shutil.rmtree(x["dir"], ignore_errors=True)
    got = judge_options(ctx, progs, runs)
    for k, (t, x) in enumerate(zip(texts, rs), 1):
        ctx.count("listings")
        if got[k] == "ok": ctx.validated += 1
        else: ctx.violation("tokens listed for %r: %s" % (t[:200], [[a, b, "".join(map(chr, v))] for a, b, v in runs[k - 1]["toks"][:40]]), {"input.clara": t, "compiler-output.txt": x["out"][-20000:]})
        if ctx.too_many(6): return


def c30(ctx):
    r = random.Random(ctx.seed * 7919 + 30)
    ctx.build()
    opts = option_sets(r)
    # valid programs: what the executable does is decided by ClaraCore
    files = []
    for k in range(ctx.scale(len(opts), 6 * len(opts))):
        f = general_file(r, cases=4, generics=.4, closures=.3, structs=.3, enums=.3, arrays=.3, strings=.3, bytes=.1, ext=.1, blocks=3, funcs=5)
        f.args = opts[k % len(opts)]
        files.append(f)
    check_core(ctx, files, what="compiled with options")
    if ctx.too_many(): return
    # everything else: the same outcome as without options, and the right tokens
    env = J.quick_gcc(ctx)
    texts = []
    tys = TG.slot_items(r, frac=.2) + TG.context_items(r, 3) + TG.arity_items(r) + TG.fn_types(r) + TG.position_items(r) + TG.signature_units(r, 6) + TG.inference_units(r, .3) + TG.generic_items(r)
    dec = [Item(DG.PRE + u.unit + "fn main() { }\n", u.what) for u in DG.scope_units(r, 200) + DG.ret_units(r, 100) + DG.match_units(r, 80) + DG.limit_units(r) + DG.type_units(r) + DG.dup_units(r) + DG.overload_units(r, 60)]
    for us, n in ((tys, ctx.scale(120, 1500)), (dec, ctx.scale(120, 1500))): texts += [(u.text, u.what) for u in r.sample(us, min(n, len(us)))]
    texts += [(t, w) for t, w in r.sample(SG.truncations(r), 30) + r.sample(SG.mutants(r, 60), 60) + SG.lexical(r, 25)]
    texts += [(SG.relayout(r, t, r.choice(SG.STYLES)) + "\n", w + ", laid out otherwise") for t, w in r.sample(texts[:200], 40) if TG.parses(t)]
    texts += [("fn main() { println(\"é\\n日本\" ) x := 0x1F // c «»\n y := not true and 1 == 2 or 3 >= 4 z := [1, 2][0] }\n", "one of everything"), ("", "an empty file"), ("// only a comment", "a comment"), ("fn main() {}", "no line end")]
    texts = list(dict.fromkeys(texts))
    jobs = []
    for i, (t, w) in enumerate(texts):
        jobs.append((i, []))
        for o in r.sample(opts, ctx.scale(3, 6)): jobs.append((i, o))
    rs = ctx.pool(lambda j: ctx.compile(texts[j[0]][0].encode(), env=env, args=j[1], timeout=20), jobs)
    progs, runs, meta = [], [], []
    base = {}
    for (i, o), x in zip(jobs, rs):
        J.ending(ctx, Item(texts[i][0], "%s, options %s" % (texts[i][1], o)), dict(x, out=x["out"][x["out"].rfind(b"\nErrors\n"):] if b"\npanic:" not in x["out"] and b"\ngoroutine " not in x["out"] and b"\nErrors\n" in x["out"] else b"" if x["rc"] in (0, 1) else x["out"][-3000:]))
        if ctx.too_many(): return
        if not o: base[i] = outcome(x)
    for i, (t, w) in enumerate(texts):
        c, cl = SG.chars(t)
        progs.append({"c": c, "cl": cl, "base": base[i]})
    for (i, o), x in zip(jobs, rs):
        toks = listing(x) if "-lex" in o else []
        runs.append({"p": i + 1, "out": outcome(x), "lex": "-lex" in o and toks is not None, "toks": toks or []})
        meta.append((i, o, x))
    got = judge_options(ctx, progs, runs)
    for k, (i, o, x) in enumerate(meta, 1):
        ctx.count("listings" if runs[k - 1]["lex"] else "runs")
        if got[k] == "ok":
            ctx.validated += 1
            continue
        ctx.violation("%s, options %s: %s: %s; without options: %s" % (texts[i][1], o, {"outcome": "the outcome is another one", "tokens": "the tokens listed are not those of the program"}[got[k]],
                      [a[:200] for a in runs[k - 1]["out"][:6]] if got[k] == "outcome" else [[a, b, "".join(map(chr, v))] for a, b, v in runs[k - 1]["toks"][:40]], [a[:200] for a in base[i][:6]]), {"prog.clara": texts[i][0], "options.txt": " ".join(o), "compiler-output.txt": x["out"][-20000:]})
        if ctx.too_many(): return
    for x in rs: shutil.rmtree(x["dir"], ignore_errors=True)


TIME = ST("time")


def c31(ctx):
    r = random.Random(ctx.seed * 7919 + 31)
    files = []
    top = MAXI // 1000000
    SECS = [0, 1, 2, 59, 60, 1600000000, 1763400000, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 33) + 7, 4102444800, 253402300799, 10 ** 12 - 1, -1, -2, -100, -(1 << 31), -(1 << 31) - 1, -(1 << 32), top - 1, -top + 1]
    US = [0, 1, 2, 7, 499, 500, 999, 1000, 1001, 123456, 499999, 500000, 500001, 999000, 999998, 999999]
    hidden = [Struct("time", [("sec", INT), ("usec", INT)])]
    ext = [Fn("vclock", [("s", INT), ("u", INT)], INT, extern=True, attr="RawValues")]
    now = lambda: call("Now", [], TIME)
    t = lambda n="t": var(n, TIME)
    both = lambda f, e: r.choice([lambda: call(f, [e], INT), lambda: dot(e, f, [], INT)])()
    for k in range(ctx.scale(4, 40)):
        p = Prog()
        p.add(Struct("event", [("at", TIME), ("n", INT)]))
        p.add(Fn("later", [("a", TIME), ("b", TIME)], INT, expr=bin_("-", both("toMicros", t("b")), both("toMicros", t("a")))))
        p.add(Fn("keepT", [("x", PAR("T")), ("s", STRING)], PAR("T"), [expr(call("gc", [], NOTHING)), ret(var("x", PAR("T")))], tparams=("T",)))
        bodies = []
        pairs = [(s, u) for s in SECS for u in r.sample(US, 5)] + [(r.randint(-top + 1, top - 1), r.randrange(1000000)) for _ in range(20)] + [(r.randint(1, 1 << 33), r.randrange(1000000)) for _ in range(20)]
        r.shuffle(pairs)
        for c in range(0, len(pairs), 12):
            ss = []
            for j, (s, u) in enumerate(pairs[c:c + 12]):
                n = "t%d" % j
                w = r.randrange(5)
                ss += [expr(call("vclock", [lit(s), lit(u)], INT)), das(n, now())]
                if w == 0: ss += [out(fld(t(n), "sec", INT)), out(fld(t(n), "usec", INT)), out(both("toMicros", t(n))), out(both("toMillis", t(n))), out(both("toSecs", t(n)))]
                elif w == 1: ss += [out(both(f, now())) for f in r.sample(["toMicros", "toMillis", "toSecs"], 3)] + [out(fld(t(n), "usec", INT))]
                elif w == 2: ss += [das("u%d" % j, now()), out(call("later", [t(n), t("u%d" % j)], INT)), out(call("later", [now(), now()], INT)), out(fld(t("u%d" % j), "sec", INT))]
                elif w == 3: ss += [das("e%d" % j, call("Event", [now(), lit(j)], ST("event"))), expr(call("gc", [], NOTHING)), das("g%d" % j, call("keepT", [fld(var("e%d" % j, ST("event")), "at", TIME), call("append", [slit("a"), slit("b")], STRING)], TIME)), out(fld(t("g%d" % j), "sec", INT)), out(both("toMicros", t("g%d" % j))), out(both("toSecs", t(n)))]
                else: ss += [das("a%d" % j, arr([now(), t(n), now()])), each("x", var("a%d" % j, ARR(TIME)), [out(fld(t("x"), "sec", INT)), out(fld(t("x"), "usec", INT)), out(both("toMillis", t("x")))])]
                if r.random() < .3: ss += [as_(fld(t(n), "usec", INT), lit(r.choice(US))), out(both("toMicros", t(n))), das("m%d" % j, call("Time", [lit(s), lit(u)], TIME)), out(both("toMicros", t("m%d" % j))), out(both("toMillis", t("m%d" % j))), out(both("toSecs", t("m%d" % j)))]
            bodies.append(ss)
        f = File(p, add_cases(p, bodies), externs=ext)
        f.hidden = hidden
        files.append(f)
    check_core(ctx, files, what="the clock")
