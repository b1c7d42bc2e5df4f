"""C20: the compiler always ends with an executable or with diagnostics.  C21: diagnostics point at the fault."""
import json, random, re
from common import *
import judge as J, tygen as TG, declgen as DG, syngen as SG, front
from judge import Item

ANSI = re.compile(rb"\x1b\[[0-9;]*m")
CFG = "SPECIFICATION %s\n%sCHECK_DEADLOCK FALSE\nCONSTANTS\n Alphabet = %s\n MaxLen = %d\n First <- %s\n Show = %s\n"
INVS = "INVARIANT Completable\nINVARIANT Agrees\nINVARIANT OnlyEof\n"


def sentences(r):
    return [re.findall(r'\\"(\w+)\\"', m) for m in re.findall(r'"SENTENCE <<(.*?)>>"', re.sub(r"\s+", " ", r.text))]


def model(ctx, rng, n):
    """check the grammar machine; -> token sequences it gets stuck on at the last token"""
    res = []
    for first, al, k in [("Empty", SG.DECL, 8), ("FnHead", SG.STMT, 9), ("Lambda", SG.EXPR, ctx.scale(9, 10)), ("FnHead", SG.EXPR, 8)]:
        r = tlc(ctx, "MCSyntax", CFG % ("Spec", INVS, SG.alpha(al), k, first, "TRUE"))
        need_ok(r)
        ss = sentences(r)
        ctx.count("stuck_sequences", len(ss))
        ss.sort()
        res += rng.sample(ss, min(n, len(ss)))
    return res


def random_sentences(ctx, rng, n):
    r = []
    for first, al, k in [("FnHead", SG.EXPR, 14), ("FnHead", SG.STMT, 16), ("FnHead", sorted(set(SG.EXPR + SG.STMT)), 24), ("Lambda", SG.EXPR, 13), ("Empty", SG.DECL[:8] + SG.DECL[9:], 20), ("FnHead", sorted(set(SG.EXPR + SG.STMT)), 60)]:
        t = tlc(ctx, "MCSyntax", CFG % ("Gen", "", SG.alpha(al), k, first, "FALSE"), workers=1, extra=["-simulate", "num=%d" % n, "-seed", str(rng.randrange(1 << 30)), "-depth", "200"])
        need_ok(t)
        r += [(s, 5 if first != "Empty" else 0) for s in sentences(t)]
    return r


def first_diag(r):
    for m in re.finditer(rb"^ - (.*?):(\d+):(\d+):", ANSI.sub(b"", r["out"]), re.M):
        if m.group(1).decode(errors="replace") == r["file"]: return int(m.group(2)), int(m.group(3))
        return 0, 0
    return 0, 0


def syntax(ctx, texts, where=True):
    """texts: [(str, label)]; the compiler must reject what ClaraSyntax rejects, and (where) say so at the right place"""
    ctx.build()
    env = J.quick_gcc(ctx)
    texts = list(dict.fromkeys(texts))
    rs = ctx.pool(lambda q: ctx.compile(q[1][0].encode(), env=None if q[0] % 50 == 7 else env, timeout=20), list(enumerate(texts)))
    data = []
    for (t, what), r in zip(texts, rs):
        J.ending(ctx, Item(t, what), r)
        c, cl = SG.chars(t)
        l, k = first_diag(r)
        data.append({"c": c, "cl": cl, "acc": r["rc"] == 0 and bool(r["exe"]), "l": l, "k": k})
        shutil.rmtree(r["dir"], ignore_errors=True)
    f = os.path.join(ctx.sub("sy"), "d.json")
    json.dump({"texts": data}, open(f, "w"))
    r = tlc(ctx, "SyntaxTrace", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", env={"SYNTAX_JSON": f})
    need_ok(r)
    got = {int(a): (b, c, d) for a, b, c, d in re.findall(r'"VERDICT (\d+) (\S+) (\S+) (\S+)"', r.text)}
    for i, ((t, what), o) in enumerate(zip(texts, rs), 1):
        if i not in got: raise CheckError("no verdict for text %d\n%s" % (i, tail(r.text)))
        kind, v, at = got[i]
        ctx.count(kind)
        if v == "ok" or v == "misplaced" and not where:
            ctx.validated += 1
            if kind != "ok" and len(ctx.samples) < 5: ctx.samples.append({"text": t[-80:], "fault": kind, "at": at})
            continue
        ctx.violation({"accepted": "an ill-formed text is compiled", "misplaced": "the first diagnostic is not at the fault"}[v] + ": %s (ClaraSyntax: %s error at %s; compiler: %s %s)" % (what, kind, at, o["rc"], o["out"].decode(errors="replace").replace(o["dir"], "")[:400]),
                      {"prog.clara": t, "compiler-output.txt": o["out"]})
        if ctx.too_many(): return


def sentence_texts(ctx, rng, n):
    out = []
    for ks, head in random_sentences(ctx, rng, n):
        t = SG.render(rng, ks, head)
        out.append((t, "a random sentence", head))
    return out


def rules(ctx, rng):
    """well-formed texts, valid and invalid: every rule of the language broken and kept"""
    tys = TG.slot_items(rng, frac=ctx.scale(.15, 1.0)) + TG.context_items(rng, ctx.scale(3, 30)) + TG.arity_items(rng) + TG.fn_types(rng) + TG.position_items(rng)
    sig = TG.signature_units(rng, 20) + TG.inference_units(rng)
    dec = DG.scope_units(rng, ctx.scale(200, 2000)) + DG.ret_units(rng, ctx.scale(150, 1500)) + DG.match_units(rng, ctx.scale(80, 800)) + DG.limit_units(rng) + DG.type_units(rng) + DG.dup_units(rng) + DG.overload_units(rng, 80) + DG.literal_units(rng, .3)
    r = [(i.text.encode(), i.what) for i in TG.generic_items(rng) + DG.main_items(rng) + DG.pair_items(rng)]
    rng.shuffle(r)
    r = r[:ctx.scale(120, 2000)]
    for us, pre, n in ((tys, TG.PRELUDE, ctx.scale(200, 4000)), (sig, TG.PRELUDE, ctx.scale(150, 2000)), (dec, DG.PRE, ctx.scale(200, 4000))):
        rng.shuffle(us)
        for u in us[:n]: r.append(((pre + u.unit + "fn main() { }\n").encode(), u.what))
        for k in range(0, min(len(us), 12 * n), 12):
            g = us[k:k + 12]
            r.append(((pre + "".join(re.sub(r"\b(t|use|plus|gs|ge|Gs|Gx|Gy)(?=[ («])", r"\g<1>%dx" % j, u.unit) for j, u in enumerate(g)) + "fn main() { }\n").encode(), " | ".join(u.what for u in g)))
    return r


def c20(ctx):
    rng = random.Random(ctx.seed * 7 + 20)
    texts = []
    for ks in model(ctx, rng, ctx.scale(250, 3000)):
        texts.append((SG.render(rng, ks), "tokens " + " ".join(ks)))
    texts += SG.truncations(rng) + SG.mutants(rng, ctx.scale(250, 1200)) + SG.lexical(rng, ctx.scale(60, 600))
    sent = sentence_texts(ctx, rng, ctx.scale(150, 2500))
    texts += [(t, w) for t, w, _ in sent]
    syntax(ctx, texts, where=False)
    if ctx.too_many(): return
    # sentences in the company of the declarations they refer to: any ending is fine, but an ending
    env = J.quick_gcc(ctx)
    blobs = [((TG.PRELUDE + t + "\nfn main() { }\n").encode(), w) for t, w, h in sent if h] + SG.garbage(rng, ctx.scale(400, 6000)) + rules(ctx, rng)
    for (b, what), r in zip(blobs, ctx.pool(lambda q: ctx.compile(q[1][0], env=None if q[0] % 40 == 0 else env, timeout=20), list(enumerate(blobs)))):
        if J.ending(ctx, Item(b.decode("latin1"), what), r): ctx.count("endings")
        shutil.rmtree(r["dir"], ignore_errors=True)
        if ctx.too_many(): return


def placed(ctx, rng, n):
    """erroneous functions, alone and among others, in all sorts of layouts"""
    bodies = TG.slot_items(rng, frac=ctx.scale(.25, 1.0)) + TG.context_items(rng, ctx.scale(6, 40)) + TG.arity_items(rng) + TG.fn_types(rng) + TG.inference_units(rng, ctx.scale(.2, 1.0))
    decls = DG.scope_units(rng, ctx.scale(300, 3000)) + DG.match_units(rng, ctx.scale(80, 800))
    rets = DG.ret_units(rng, ctx.scale(200, 1500))
    decls += [u for u in rets if "l := fn() int" in u.unit or ") fn() int" in u.unit]
    rets = [u for u in rets if u not in decls]      # missing returns of declared functions are reported before anything else
    items = []
    for us, pre in ((bodies, TG.PRELUDE), (decls, DG.PRE), (rets, DG.PRE)):
        us = [u for u in us if TG.ok(u)]
        rng.shuffle(us)
        k = 0
        for _ in range(n):
            m = rng.choice([1, 1, 2, 3, 5])
            g = us[k:k + m]
            k += m
            if k > len(us): break
            parts = [pre] + [re.sub(r"\b(t|use%s)(?=[(«])" % ("|q" if "fn q«" in u.unit else ""), r"\g<1>%dx" % j, u.unit) for j, u in enumerate(g)] + ["fn main() { }\n"]
            if rng.random() < .4: parts = parts[1:] + parts[:1]
            elif rng.random() < .3: rng.shuffle(parts)
            style = rng.choice(SG.STYLES)
            items.append(Item(relay(rng, "".join(parts), style), "%s layout: %s" % (style, " | ".join(u.what for u in g)), all=not any("a type parameter" in u.what for u in g)))
    return items


def relay(rng, text, style):
    return SG.relayout(rng, text, style) + "\n"


def c21(ctx):
    rng = random.Random(ctx.seed * 13 + 21)
    texts = []
    for ks in model(ctx, rng, ctx.scale(250, 3000)):
        texts.append((SG.render(rng, ks), "tokens " + " ".join(ks)))
    texts += SG.truncations(rng) + SG.mutants(rng, ctx.scale(250, 1200)) + SG.lexical(rng, ctx.scale(120, 900))
    texts = [(SG.relayout(rng, t, "line") if q % 7 == 3 and w[0] != "a" else t, w) for q, (t, w) in enumerate(texts)]
    syntax(ctx, texts, where=True)
    if ctx.too_many(): return
    items = placed(ctx, rng, ctx.scale(300, 3000))
    for u in DG.type_units(rng) + DG.dup_units(rng) + DG.limit_units(rng) + DG.overload_units(rng, 60):
        if TG.ok(u) and rng.random() < ctx.scale(.25, 1): items.append(Item(relay(rng, DG.PRE + u.unit + "fn main() { }\n", rng.choice(SG.STYLES)), u.what, all=False))
    lits = [u for u in DG.literal_units(rng, ctx.scale(.35, 1.0)) if TG.ok(u)]
    for k in range(0, len(lits), 3):
        g = lits[k:k + 3]
        text = "".join(re.sub(r"\b(t|use|plus)(?=[(«])", r"\g<1>%dx" % j, u.unit) for j, u in enumerate(g))
        items.append(Item(relay(rng, DG.PRE + text + "fn main() { }\n", rng.choice(SG.STYLES)), " | ".join(u.what for u in g)))
    for it in TG.generic_items(rng): items.append(Item(relay(rng, it.text, rng.choice(SG.STYLES)), it.what))
    items = [i for i in items if TG.parses(i.text)]
    ctx.count("programs", len(items))
    for k in range(0, len(items), 1500):
        J.judge(ctx, items[k:k + 1500], pos=True, real=0.02)
        if ctx.too_many(): return
