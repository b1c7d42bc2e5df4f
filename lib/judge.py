"""Programs judged by ClaraTypes and by the real compiler: verdicts and positions of diagnostics must agree."""
import glob, json, os, re
import front
from common import *


class Item:
    """one program: text; what: a label; pre, unit: text is pre + unit + main"""

    def __init__(self, text, what, pre=None, unit=None, all=True):
        self.text, self.what, self.pre, self.unit, self.all = text, what, pre, unit, all


DIAG = re.compile(rb"^ - (.*?):(\d+):(\d+):", re.M)


def lib_of(ctx, items):
    """the declarations of the standard library the programs can possibly mean"""
    names = set()
    for it in items:
        names.update(re.findall(r"[^\W\d]\w*", it.text))
    return front.library(sorted(glob.glob(os.path.join(REPO, "install", "lib", "*.clara"))), names)


def quick_gcc(ctx):
    """a directory with a stand-in for gcc that only makes the output file: whether a program is accepted is decided before linking"""
    d = ctx.path("fakebin")
    if not os.path.isdir(d):
        os.makedirs(d)
        with open(os.path.join(d, "gcc"), "w") as h:
            h.write('#!/bin/sh\nwhile [ $# -gt 0 ]; do if [ "$1" = -o ]; then : > "$2"; chmod 755 "$2"; exit 0; fi; shift; done\nexit 0\n')
        os.chmod(os.path.join(d, "gcc"), 0o755)
    return {"PATH": d + ":" + os.environ["PATH"]}


def observe(ctx, items, pos=False, each=False, real=0.05):
    """compile all items and let TLC decide; -> TLC's output, and where the programs' nodes start"""
    ctx.build()
    lib = lib_of(ctx, items)
    off = len(lib["nodes"])
    for it in items:
        it.p = front.parse(it.text, off)
    t0 = time.time()
    env = quick_gcc(ctx)
    rs = ctx.pool(lambda q: ctx.compile(q[1].text.encode(), install=ctx.install, env=None if q[0] * real % 1 + real >= 1 else env),
                  list(enumerate(items)))
    ctx.count("s_compile", round(time.time() - t0, 1))
    progs = []
    for it, r in zip(items, rs):
        it.r = r
        ending(ctx, it, r)
        p = it.p
        at = {(t.line, t.col): i for i, t in enumerate(p.t)}
        at.setdefault(p.end, len(p.t))
        diags = []
        for m in DIAG.finditer(r["out"]):
            i = at.get((int(m.group(2)), int(m.group(3)))) if m.group(1).decode(errors="replace") == r["file"] else None
            diags.append([] if i is None else [off + 1 + j for j, (a, b) in enumerate(p.spans) if a <= i < b])
        dfn = []
        for m in DIAG.finditer(r["out"]):
            i = at.get((int(m.group(2)), int(m.group(3)))) if m.group(1).decode(errors="replace") == r["file"] else None
            dfn.append(0 if i is None else max([0] + [j for j, a in enumerate(p.starts, 1) if a <= i]))
        nodes = [{k: v for k, v in n.items() if k not in ("txt", "neg")} for n in p.nodes]
        types = {}
        for ns, ds, o in ((lib["nodes"], lib["decls"], 0), (p.nodes, p.decls, off)):
            for d in ds:
                if ns[d - 1 - o]["k"] != "fn": types.setdefault(ns[d - 1 - o]["n"], d)
        progs.append({"types": types, "nodes": nodes, "decls": p.decls, "acc": r["rc"] == 0 and bool(r["exe"]), "pos": bool(pos), "all": getattr(it, "all", True), "each": bool(each), "diags": diags, "dfn": dfn,
                      "fnOf": [p.owner.get(off + 1 + j, 0) for j in range(len(nodes))]})
        if r["exe"]:
            shutil.rmtree(r["dir"], ignore_errors=True)
    f = os.path.join(ctx.sub("ty"), "data.json")
    with open(f, "w") as h:
        json.dump({"lib": lib, "progs": progs}, h)
    t0 = time.time()
    r = tlc(ctx, "TypesTrace", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", env={"TYPES_JSON": f})
    need_ok(r)
    ctx.count("s_tlc", round(time.time() - t0, 1))
    return r, off


def judge(ctx, items, pos=False, real=0.05):
    """compile all items, let TLC decide, report disagreements; -> {verdict: count}"""
    r, off = observe(ctx, items, pos, False, real)
    res, n = {}, {}
    for m in re.finditer(r'"VERDICT (\d+) (\S+) (\S+) (.*?) ?(\{[^{}]*\})"', r.text):
        res[int(m.group(1))] = m.groups()
    for i, it in enumerate(items, 1):
        if i not in res:
            raise CheckError("no verdict for program %d (%s)\n%s" % (i, it.what, tail(r.text)))
        _, v, o, must, x = res[i]
        if o in ("rejected-valid", "accepted-invalid"):      # once more, with the real linker
            it.r = ctx.compile(it.text.encode(), install=ctx.install)
            ending(ctx, it, it.r)
            if (it.r["rc"] == 0) == (o == "rejected-valid"):
                o = "ok"
        it.v, it.o = v, o
        n[v] = n.get(v, 0) + 1
        if o == "ok":
            ctx.validated += 1
            if len(ctx.samples) < 4 and v == "reject":
                ctx.samples.append({"program": it.what, "verdict": v, "diagnostics": it.r["out"].decode(errors="replace").replace(it.r["dir"], "")[:200]})
        elif o == "unspecified":
            continue
        else:
            spans = [span(it.p, int(j) - off - 1) for j in re.findall(r"\d+", must) if int(j) > off] if o != "silent" else must
            why = {"rejected-valid": "a valid program is rejected", "accepted-invalid": "an invalid program is compiled",
                   "misplaced": "a diagnostic does not point at an offending construct", "silent": "an error in a function is not reported"}[o]
            ctx.violation("%s: %s (ClaraTypes: %s %s; compiler: rc=%s %s)" % (why, it.what, v, spans, it.r["rc"],
                          it.r["out"].decode(errors="replace")[:500]), {"prog.clara": it.text, "compiler-output.txt": it.r["out"]})
            if ctx.too_many():
                return n
    for k, c in n.items():
        ctx.count(k, c)
    return n


def judge_units(ctx, units, per=16, real=0.02):
    """units: Items whose text is pre + unit + main.  They are put together, `per' to a program, and judged one by one there;
    those on which the compiler and the specification differ are judged again alone, and only that counts."""
    ctx.build()
    pres = {}
    for u in units:
        pres.setdefault(u.pre, []).append(u)
    groups = []
    for pre, us in pres.items():
        for k in range(0, len(us), per):
            g = us[k:k + per]
            text, where = pre, []
            n0 = len(front.parse(pre).decls)
            for j, u in enumerate(g):
                t = re.sub(r"\b(t|use)(?=[(«])", r"\g<1>%dx" % j, u.unit)
                nd = len(front.parse(t).decls)
                where.append((n0 + 1, n0 + nd))
                n0 += nd
                text += t
            it = Item(text + "fn main() { }\n", "%d functions: %s, ..." % (len(g), g[0].what))
            it.units, it.where, it.solo = g, where, []
            groups.append(it)
    r, off = observe(ctx, groups, False, True, real)
    again = []
    got = {int(m.group(1)): m.groups() for m in re.finditer(r'"EACH (\d+) (\S+) (\{[^{}]*\}) (\{[^{}]*\}) (\{[^{}]*\})"', re.sub(r"\s+", " ", r.text))}
    for i, g in enumerate(groups, 1):
        if i not in got:
            raise CheckError("no verdict for group %d\n%s" % (i, tail(r.text)))
        acc, rej, odd = [{int(x) for x in re.findall(r"\d+", y)} for y in got[i][2:]]
        mine = set()
        for u, (a, b) in zip(g.units, g.where):
            span_ = set(range(a, b + 1))
            mine |= span_
            v = "reject" if span_ & rej else "accept" if span_ <= acc else "unspecified"
            ctx.count(v)
            u.v = v
            if span_ & odd: again.append(u)
            elif v != "unspecified":
                ctx.validated += 1
                if v == "reject" and len(ctx.samples) < 4: ctx.samples.append({"program": u.what, "verdict": v})
        if got[i][1] == "odd" and not odd:
            again += g.units
        if odd - mine:      # something in the declarations all these programs share
            judge(ctx, [Item(g.units[0].pre + "fn main() { }\n", "the common part of the generated programs")], real=1)
            if ctx.violations: return
            raise CheckError("the common part of the generated programs is in question:\n" + g.r["out"].decode(errors="replace")[:1500])
    ctx.count("again_alone", len(again))
    for k in range(0, len(again), 500):
        judge(ctx, again[k:k + 500], real=0)
        if ctx.too_many(): return


def span(p, j):
    a, b = p.spans[j]
    return " ".join(t.v for t in p.t[a:b])[:80]


def ending(ctx, it, r):
    """the compiler ended in one of the two ways it may end"""
    o = r["out"]
    bad = None
    if r["rc"] == "timeout": bad = "the compiler does not terminate"
    elif b"goroutine" in o or b"panic:" in o or r["rc"] not in (0, 1): bad = "the compiler crashes"
    elif r["rc"] == 0 and not r["exe"]: bad = "exit status 0 without an executable"
    elif r["rc"] == 1 and r["exe"]: bad = "exit status 1 but an executable was written"
    elif r["rc"] == 1 and b"\n - " not in o: bad = "exit status 1 without an error"
    if bad:
        ctx.violation("%s: %s: rc=%s %s" % (bad, it.what, r["rc"], o.decode(errors="replace")[:600]),
                      {"prog.clara": it.text, "compiler-output.txt": o})
    return bad is None
