"""C14 the hash map: table-implements-map model checked by TLC; recorded histories of the real map validated against ClaraMap."""
import itertools, json, os, random, re
from common import *

# one driver per key/value type; %K key type, %V value type
DRIVER = """
#[RawValues]
fn vnext() int
#[RawValues]
fn vcase() int

struct pt { k: int  tag: string }

fn hash0(k: int) int = 0
fn hash1(k: int) int = k
fn hash2(k: int) int = k * 16
fn hash3(k: int) int = mod(k, 3)
fn hash4(k: int) int = 0x3ffffffffffffff0 + mod(k, 16)
fn hash5(k: int) int = (k * 2654435761) & 0x3fffffffffffffff
fn hash6(k: int) int = mod(k, 5)
fn hash7(k: int) int = 15
fn hasher(n: int) fn(int) int {
    if n == 0 { return hash0 }
    if n == 1 { return hash1 }
    if n == 2 { return hash2 }
    if n == 3 { return hash3 }
    if n == 4 { return hash4 }
    if n == 5 { return hash5 }
    if n == 6 { return hash6 }
    return hash7
}
fn eq(a: int, b: int) bool = a == b
fn eq5(a: int, b: int) bool = mod(a, 5) == mod(b, 5)
fn sname(k: int) string = append("key", toString(k))
fn sback(s: string) int {
    n := 0
    for i in 3 .. s.length { n = n * 10 + s.byte(i) - 48 }
    return n
}

fn key(k: int, w: int) int = k
fn key(k: int, w: string) string = sname(k)
fn key(k: int, w: pt) pt = Pt(k, sname(k))
fn back(k: int) int = k
fn back(s: string) int = sback(s)
fn back(p: pt) int = p.k
fn shows(o: option«int») {
    match o {
        case Some(v): println(v)
        case None(): println(-1)
    }
}
fn shows(o: option«string») {
    match o {
        case Some(s): println(sback(s))
        case None(): println(-1)
    }
}
fn shows(v: int) = println(v)
fn shows(s: string) = println(sback(s))

fn newInt(h: int) map«int, %V» = h == 6 ? NewHashMap«int, %V»(hash6, eq5) : NewHashMap«int, %V»(hasher(h), eq)
fn newStr(h: int) map«string, %V» {
    if h == 1 { return NewHashMap«string, %V»(fn(s: string) int = s.length, Equals) }
    if h == 2 { return NewHashMap«string, %V»(fn(s: string) int = 3, Equals) }
    if h == 3 { return NewHashMap«string, %V»(fn(s: string) int = sback(s) * 32 + 7, fn(a: string, b: string) bool = a.Equals(b)) }
    return NewHashMap«string, %V»(fnv1a, Equals)
}
fn newPt(h: int) map«pt, %V» {
    f := hasher(h)
    return NewHashMap«pt, %V»(fn(p: pt) int = f(p.k), fn(a: pt, b: pt) bool = a.k == b.k)
}

fn main() {
    h := vcase()
    m := %NEW(h)
    ms := [m, %NEW(h), %NEW(h)]
    which := vnext()
    while which >= 0 {
        op := vnext()
        k := vnext()
        v := vnext()
        m = ms[which - 1]
        if op == 0 { shows(m.put(key(k, %W), key(v, %X))) }
        elseif op == 1 { shows(m.remove(key(k, %W))) }
        elseif op == 2 { shows(m.get(key(k, %W))) }
        elseif op == 3 { println(m.contains(key(k, %W)) ? 1 : 0) }
        elseif op == 4 { shows(m.orElse(key(k, %W), key(v, %X))) }
        elseif op == 5 { println(m.size) }
        elseif op == 6 {
            m.foreach(fn(x: %K, y: %V) { println(back(x)) println(back(y)) })
            println(-1)
        } elseif op == 7 { ms[which - 1] = %NEW(h) }
        else { gc() }
        which = vnext()
    }
}
"""
PUT, REM, GET, HAS, ORE, SIZE, EACH, NEW, GC = range(9)


def driver(kt, vt):
    new = {"int": "newInt", "string": "newStr", "pt": "newPt"}[kt]
    wit = {"int": "0", "string": '""', "pt": 'Pt(0, "")'}
    s = DRIVER.replace("%NEW", new).replace("%W", wit[kt]).replace("%X", wit[vt]).replace("%K", kt).replace("%V", vt)
    # a program may only declare what it can type: key type functions are shared by all
    return s.encode()


def parse(ops, out):
    """pairs operations with the numbers the driver printed; -> events, complete?"""
    xs = out.split()
    p = 0
    ev = []
    try:
        for o in ops:
            if o[1] == EACH:
                r = []
                while int(xs[p]) != -1:
                    r.append([int(xs[p]), int(xs[p + 1])])
                    p += 2
                p += 1
            elif o[1] in (NEW, GC): r = 0
            else:
                r = int(xs[p])
                p += 1
            ev.append(list(o) + [r])
    except (IndexError, ValueError):
        return ev, False
    return ev, p == len(xs)


def observe(m, keys, v):
    return [(m, GET, k, 0) for k in keys] + [(m, HAS, keys[0], 0), (m, ORE, keys[-1], v), (m, SIZE, 0, 0), (m, EACH, 0, 0)]


def c14(ctx):
    r = random.Random(ctx.seed * 7919 + 14)
    ks = ctx.scale("{1,2,3,4}", "{1,2,3,4,5}")
    res = tlc(ctx, "MCMap", "SPECIFICATION Spec\nINVARIANT Results\nINVARIANT Refines\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Keys = %s\n Vals = %s\n Hashes = {0,1,2,5}\n N0 = 2\n" % (ks, ctx.scale("{1,2}", "{1}")), timeout=800)
    need_ok(res)
    ctx.build()
    jobs = []       # (key type, value type, hash, ops, nkeys)
    # every history of puts and removes on three keys, observed after every history; keys chosen so that they collide or not
    def exhaustive(length, keys, prefix=()):
        ops = []
        alphabet = [(PUT, k) for k in keys] + [(REM, k) for k in keys]
        for hist in itertools.product(alphabet, repeat=length):
            ops.append((1, NEW, 0, 0))
            ops += list(prefix)
            for i, (o, k) in enumerate(hist): ops.append((1, o, k, 100 + i))
            ops += observe(1, keys, 999)
        return ops
    n = ctx.scale(4, 5)
    for kt, vt, h, keys in [("int", "int", 0, [0, 1, 2]), ("int", "string", 1, [0, 16, 3]), ("int", "int", 3, [0, 3, 1]), ("int", "int", 6, [0, 5, 1]), ("int", "int", 4, [15, 14, 31]), ("string", "int", 0, [1, 2, 3]), ("string", "string", 2, [0, 1, 2]), ("pt", "int", 7, [4, 5, 6])]:
        jobs.append((kt, vt, h, exhaustive(n, keys)))
    # the same around growth of the table: 10 entries first, then histories that cross the threshold
    for kt, vt, h in [("int", "int", 0), ("int", "int", 2), ("int", "int", 1), ("string", "int", 3), ("pt", "string", 1)]:
        pre = [(1, PUT, 20 + j, 50 + j) for j in range(11)]
        jobs.append((kt, vt, h, exhaustive(ctx.scale(3, 4), [22, 3, 4, 36], pre)))
    # long random histories with three maps
    for _ in range(ctx.scale(24, 200)):
        kt, vt = r.choice(["int", "int", "string", "string", "pt"]), r.choice(["int", "string"])
        h = r.choice([0, 1, 2, 3]) if kt == "string" else r.choice([0, 1, 2, 3, 4, 5, 6, 7] if kt == "int" else [0, 1, 2, 3, 4, 5, 7])
        nk = r.choice([6, 14, 30, 70]) if h in (0, 7) or (kt == "string" and h in (1, 2)) else r.choice([6, 14, 30, 70, 200])
        ops = []
        wp, wr = r.choice([(.5, .2), (.3, .3), (.7, .05), (.25, .45)])
        for i in range(r.choice([60, 200, 500])):
            m = r.choice([1, 1, 1, 2, 3])
            k = r.randrange(nk)
            q = r.random()
            o = PUT if q < wp else REM if q < wp + wr else r.choice([GET, GET, GET, HAS, ORE, SIZE, SIZE, EACH if r.random() < .3 else GET, GC if r.random() < .2 else GET])
            ops.append((m, o, k, r.randrange(1000)))
            if r.random() < .004: ops.append((m, NEW, 0, 0))
        for m in (1, 2, 3): ops += [(m, EACH, 0, 0), (m, SIZE, 0, 0)] + [(m, GET, k, 0) for k in range(nk)]
        jobs.append((kt, vt, h, ops))
    # fill, then empty in another order
    for kt, h, nk in [("int", 1, 200), ("int", 2, 120), ("string", 0, 200), ("int", 5, 300), ("int", 0, 60)]:
        ks = list(range(nk))
        r.shuffle(ks)
        ops = [(1, PUT, k, k) for k in ks] + [(1, SIZE, 0, 0), (1, EACH, 0, 0)]
        r.shuffle(ks)
        for i, k in enumerate(ks): ops += [(1, REM, k, 0), (1, GET, k, 0), (1, SIZE, 0, 0)] + ([(1, EACH, 0, 0)] if i % 37 == 0 else [])
        jobs.append((kt, "int", h, ops))
    exes = {}
    kinds = sorted({(a, b) for a, b, _, _ in jobs})
    for kv, c in zip(kinds, ctx.pool(lambda x: ctx.compile(driver(*x)), kinds)):
        if c["rc"] != 0 or not c["exe"]:
            ctx.violation("the map driver for %s keys and %s values does not compile: %s" % (kv[0], kv[1], c["out"].decode(errors="replace")[:500]), {"prog.clara": driver(*kv)})
            continue
        exes[kv] = c
    jobs = [j for j in jobs if (j[0], j[1]) in exes]

    def go(ij):
        i, (kt, vt, h, ops) = ij
        f = ctx.path("ops%d" % i)
        with open(f, "w") as o: o.write("\n".join("%d %d %d %d" % x for x in ops) + "\n")
        c = exes[(kt, vt)]
        return run([c["exe"]], env={"VCASE": str(h), "VOPS": f}, timeout=60, cwd=c["dir"], scratch=ctx.dir, limit=1 << 26)
    outs = ctx.pool(go, list(enumerate(jobs)))
    traces, meta = [], []
    for (kt, vt, h, ops), (rc, o, e) in zip(jobs, outs):
        if rc == 95: raise CheckError("harness arena exhausted")
        ev, whole = parse(ops, o)
        what = "map«%s, %s» with hash function %d" % (kt, vt, h)
        if rc != 0 or not whole:
            ctx.violation("%s: the program stops with status %s after %d of %d operations, last ones %s: %s %s" % (what, rc, len(ev), len(ops), ops[max(0, len(ev) - 3):len(ev) + 1], o[-200:], e[:200]), {"prog.clara": driver(kt, vt), "ops.txt": repr(ops)})
            continue
        top = max(x[2] for x in ops) + 1
        cls = [k % 5 if h == 6 and kt == "int" else k for k in range(top)]
        # independent histories become separate traces
        cut = [0] + [i for i, x in enumerate(ev) if i and x[1] == NEW and all(y[0] == 1 for y in ev)] + [len(ev)]
        size, cur = 400, 0
        group = []
        for a, b in zip(cut, cut[1:]):
            group += ev[a:b]
            if len(group) > size or b == len(ev):
                traces.append({"cls": cls, "ev": group})
                meta.append((what, kt, vt))
                group = []
    if not traces: return
    f = ctx.path("map.json")
    json.dump({"traces": traces}, open(f, "w"))
    res = tlc(ctx, "MapTrace", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", env={"MAP_JSON": f}, timeout=700)
    need_ok(res)
    got = {int(a): int(b) for a, b in re.findall(r'"VERDICT (\d+) (\d+)"', res.text)}
    if len(got) != len(traces): raise CheckError("no verdict for some traces\n" + tail(res.text))
    for i, t in enumerate(traces, 1):
        ctx.count("events", len(t["ev"]))
        if got[i] == 0:
            ctx.validated += 1
            continue
        k = got[i]
        ev = t["ev"][:k]
        m = ev[-1][0]
        ctx.violation("%s: operation %s returned %s, which the finite map does not explain; history of that map: %s" % (
            meta[i - 1][0], ["put", "remove", "get", "contains", "orElse", "size", "foreach", "new", "gc"][ev[-1][1]] + str(tuple(ev[-1][2:4])), ev[-1][4], [e for e in ev if e[0] == m][-40:]),
            {"prog.clara": driver(*meta[i - 1][1:]), "history.json": json.dumps(ev)})
        if ctx.too_many(4): break
    ctx.samples.append({"history": traces[0]["ev"][:12]})
    ctx.count("histories", len(traces))
