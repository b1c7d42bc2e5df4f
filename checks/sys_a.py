"""C23 arguments and environment, C24 files: runs of real programs validated against ClaraSystem."""
import json, os, pwd, random, re, stat, subprocess
from common import *

ERRNO = {}
for n, t in enumerate("""Operation not permitted|No such file or directory|No such process|Interrupted system call|I/O error|No such device or address|Argument list too long|Exec format error|Bad file descriptor|No child processes|Try again|Out of memory|Permission denied|Bad address|Block device required|Device or resource busy|File exists|Cross-device link|No such device|Not a directory|Is a directory|Invalid argument|File table overflow|Too many open files|Not a typewriter|Text file busy|File too large|No space left on device|Illegal seek|Read-only file system|Too many links|Broken pipe|Math argument out of domain of func|Math result not representable""".split("|"), 1):
    ERRNO[n] = list(t.encode())
TEXT = [ERRNO[i] for i in range(1, 35)]

PRE = """
#[RawValues]
fn vdump(s: string, n: int) int
#[RawValues]
fn vnum(n: int) int
#[RawValues]
fn vnext() int
fn dump(s: string) { vdump(s, s.length) }
"""
ARGS = PRE + """
fn main() {
    a := getRuntime().args
    vnum(a.length)
    for x in a { dump(x) }
    env := getRuntime().env
    vnum(env.size)
    env.foreach(fn(k: string, v: string) { dump(k) dump(v) })
    dump("end")
    // names asked for: the arguments
    for x in a {
        match env.get(x) {
            case Some(v):
                vnum(1)
                dump(v)
            case None(): vnum(0)
        }
    }
    // still there after the program has allocated and collected
    gc()
    s := ""
    for i in 0 .. 50 { s = s.append(i.toString()) }
    gc()
    vnum(getRuntime().args.length)
    for x in getRuntime().args { dump(x) }
    vnum(getRuntime().env.size)
    getRuntime().env.foreach(fn(k: string, v: string) { dump(k) dump(v) })
    dump("end")
}
"""
FILES = PRE + """
fn report(e: error) {
    vnum(0)
    dump(e.describe())
}
fn main() {
    paths := getRuntime().args
    fs := array(8, File(-1, ""))
    op := vnext()
    while op >= 0 {
        slot := vnext()
        if op == 0 {
            match open(paths[vnext()]) {
                case Ok(f):
                    fs[slot] = f
                    vnum(1)
                case Err(e): report(e)
            }
        } elseif op == 1 {
            match fs[slot].size() {
                case Ok(n):
                    vnum(1)
                    vnum(n)
                case Err(e): report(e)
            }
        } elseif op == 2 {
            n := vnext()
            buf := Bytes(vnext())
            match fs[slot].read(buf, n) {
                case None():
                    vnum(1)
                    dump(buf.toString())
                case Some(e): report(e)
            }
        } elseif op == 3 {
            match fs[slot].readAll() {
                case Ok(s):
                    vnum(1)
                    dump(s)
                case Err(e): report(e)
            }
        } elseif op == 4 {
            match open(paths[vnext()]).then(readAll) {
                case Ok(s):
                    vnum(1)
                    dump(s)
                case Err(e): report(e)
            }
        } elseif op == 5 { dump(describe(vnext())) }
        else { gc() }
        op = vnext()
    }
}
"""


def records(b):
    """the recorded numbers and byte strings"""
    p = 0
    rs = []
    while p < len(b):
        if b[p:p + 2] == b"N ":
            q = b.index(b"\n", p)
            rs.append(int(b[p + 2:q]))
            p = q + 1
        else:
            q = b.index(b" ", p + 2)
            n = int(b[p + 2:q])
            rs.append(list(b[q + 1:q + 1 + n]))
            p = q + 2 + n
    return rs


def judge(ctx, traces, metas, src):
    f = ctx.path("sys.json")
    json.dump({"text": TEXT, "traces": traces}, open(f, "w"))
    res = tlc(ctx, "SystemTrace", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", env={"SYS_JSON": f}, timeout=700, mem="12g")
    need_ok(res)
    got = {int(a): int(b) for a, b in re.findall(r'"VERDICT (\d+) (\d+)"', res.text)}
    if len(got) != len(traces): raise CheckError("no verdict for some traces\n" + tail(res.text))

    def short(x):
        if isinstance(x, list) and x and all(isinstance(y, int) for y in x) and len(x) > 2: return repr(bytes(y & 255 for y in x[:60])) + ("..%d" % len(x) if len(x) > 60 else "")
        return [short(y) for y in x[:12]] if isinstance(x, list) else x
    for i, t in enumerate(traces, 1):
        ctx.count("events", len(t["ev"]))
        if got[i] == 0:
            ctx.validated += 1
            continue
        e = t["ev"][got[i] - 1]
        ctx.violation("%s: event %d is not a behaviour of ClaraSystem: %s" % (metas[i - 1], got[i], json.dumps(short(e))[:900]), {"prog.clara": src, "trace.json": json.dumps(t)})
        if ctx.too_many(5): break
    ctx.count("runs", len(traces))


def c23(ctx):
    r = random.Random(ctx.seed * 7919 + 23)
    ctx.build()
    c = ctx.compile(ARGS.encode())
    if not c["exe"]:
        ctx.violation("the program does not compile: %s" % c["out"].decode(errors="replace")[:800], {"prog.clara": ARGS})
        return

    def word(n=None):
        n = r.choice([0, 1, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 100]) if n is None else n
        return bytes(r.choice([r.randint(1, 255), r.choice(b"abc-=/ \\\"'%$\n"), 255, 1, 128]) for _ in range(n))

    def name():
        return bytes(r.choice(b"ABCXYZ_abc019") for _ in range(r.randint(1, 12)))
    runs = [([b"prog"], []), ([b"prog"], [b"A=1"]), ([b""], [b"A="]), ([b"p", b"-g"], [b"A==x", b"B=a=b=c", b"C= "]), ([b"p", b"--gc.debug", b"x"], [b"PATH=/usr/bin"]),
            ([b"p", b"x", b"-g", b"y", b"--", b"-z", b"z"], [b"E=" + b"v" * 5000]), ([b"p", b"-x", b"--unknown=3", b"-", b"--", b"-gq", b"--gc", b"--gc.debug=1"], []),
            ([b"p", b"\xff\xfe", "é日本".encode(), b"a b", b"%s%n%d", b"\\n", b"\n", b"*"], [b"N=\xff\x80", "K=é".encode(), b"L=a\nb"]),
            ([b"p", b"a" * 100000, b"", b"b" * 4096, b""], [b"BIG=" + b"x" * 60000, b"AFTER=1"]), ([b"p"] + [b"%d" % i for i in range(400)], [b"V%d=%d" % (i, i * i) for i in range(300)]),
            ([b"p" * 200, b"", b"", b"-g", b""], [bytes([97 + i]) + b"=" + b"=" * i for i in range(20)]),
            ([b"p", b"", b"x", b"=", b"=x"], [b"=x"]), ([b"p", b"", b"C:=", b"C:"], [b"=C:=C:\\dir", b"A=1"]), ([b"p", b"", b"A"], [b"=", b"A="]), ([b"p", b"", b"=", b"=="], [b"===", b" = ", b"\xff=\xff", b"\n=\n"]),
            ([b"p", b"A", b"a", b"AB", b"A "], [b"A=1", b"a=2", b"AB=3", b"A =4", b" A=5", b"B=A=1"])]
    for _ in range(ctx.scale(120, 1200)):
        env = {}
        for _ in range(r.choice([0, 1, 3, 10, 13, 14, 30, 60])): env[r.choice([name(), name(), name(), name(), word().replace(b"=", b"")])] = r.choice([word(), word(), b"", b"=", word(r.randint(0, 60))])
        args = [r.choice([word(), word(), b"", b"-" + word(), b"--" + word(), r.choice(list(env) or [b"Q"]), name()]) for _ in range(r.choice([0, 1, 2, 5, 12]))]
        runs.append(([r.choice([b"prog", word(), b"./p"])] + args, [k + b"=" + v for k, v in env.items()]))

    def go(ij):
        i, (argv, envp) = ij
        out = ctx.path("rec%d" % i)
        env = dict(e.split(b"=", 1) for e in envp)
        env[b"VOUT"] = out.encode()
        p = subprocess.run(argv, executable=c["exe"], env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=60, cwd=c["dir"])
        b = open(out, "rb").read() if os.path.exists(out) else b""
        if os.path.exists(out): os.remove(out)
        return p.returncode, b, [k + b"=" + v for k, v in env.items()], p.stderr
    traces, metas = [], []
    for (argv, _), (rc, b, envp, err) in zip(runs, ctx.pool(go, list(enumerate(runs)))):
        ev = []
        meta = "a program started with %r and environment %r" % (argv[:8], envp[:8])
        try:
            rs = records(b)
            p = 0
            for rnd in (0, 1):
                n = rs[p]
                ev.append(["args", rs[p + 1:p + 1 + n]])
                p += 1 + n
                ev.append(["size", rs[p]])
                p += 1
                pairs = []
                while rs[p] != list(b"end") or (p + 1 < len(rs) and isinstance(rs[p + 1], list)):
                    pairs.append([rs[p], rs[p + 1]])
                    p += 2
                p += 1
                ev.append(["env", pairs])
                if rnd == 0:
                    for x in argv:
                        if rs[p] == 1:
                            ev.append(["get", list(x), True, rs[p + 1]])
                            p += 2
                        else:
                            ev.append(["get", list(x), False, []])
                            p += 1
            whole = p == len(rs) and rc == 0
        except (IndexError, ValueError, TypeError):
            whole = False
        if not whole:
            ctx.violation("%s stops with status %s or records too little: %r %r" % (meta, rc, b[-200:], err[:200]), {"prog.clara": ARGS, "argv.txt": repr(argv), "env.txt": repr(envp)})
            if ctx.too_many(5): return
            continue
        traces.append({"w": {"argv": [list(x) for x in argv], "envp": [list(x) for x in envp], "fs": []}, "ev": ev})
        metas.append(meta)
    if traces: judge(ctx, traces, metas, ARGS)


def c24(ctx):
    r = random.Random(ctx.seed * 7919 + 24)
    ctx.build()
    c = ctx.compile(FILES.encode())
    if not c["exe"]:
        ctx.violation("the program does not compile: %s" % c["out"].decode(errors="replace")[:800], {"prog.clara": FILES})
        return
    os.chmod(ctx.dir, 0o755)
    d = ctx.sub("fs")
    fs = []         # (kind, bytes, path)

    def add(kind, b=b"", name=None, path=None):
        p = path or os.path.join(d, name or "f%d" % len(fs))
        if kind in ("file", "denied"):
            with open(p, "wb") as h: h.write(b)
            if kind == "denied": os.chmod(p, 0)
            else: os.chmod(p, 0o644)
        elif kind == "dir": os.makedirs(p)
        elif kind == "loop": os.symlink(p, p)
        fs.append((kind, b, p))
        return len(fs) - 1
    sizes = [0, 1, 2, 7, 8, 9, 15, 16, 17, 63, 64, 100, 255, 256, 1000, 4095, 4096, 4097, 65536, 200001]
    for n in sizes: add("file", r.randbytes(n))
    add("file", bytes(range(256)) * 2)
    add("file", b"\x00" * 100)
    add("file", b"a\x00b\x00\x00c\n")
    add("file", b"text\nwith lines\r\n", name="name with spaces %s %d é")
    add("file", b"empty name no", name="-")
    for _ in range(4): add("file", r.randbytes(r.randrange(3000)))
    i = add("file", b"target")
    os.symlink(fs[i][2], os.path.join(d, "link"))
    fs.append(("file", b"target", os.path.join(d, "link")))
    fs.append(("file", b"target", os.path.join(d, ".", "..", os.path.basename(d), "link")))
    files = list(range(len(fs)))
    big = [add("file", r.randbytes(n)) for n in ([(1 << 20) + 3] if not ctx.thorough else [1 << 20, (1 << 20) + 1, 2100000, 5000001])]
    bads = [add("missing", name="nothing"), add("missing", name="no/such/dir/x"), add("denied", b"secret"), add("dir", name="adir"), add("dir", name="other dir"), add("loop", name="loop")]
    fs.append(("notdir", b"", fs[i][2] + "/x")); bads.append(len(fs) - 1)
    fs.append(("long", b"", os.path.join(d, "n" * 300))); bads.append(len(fs) - 1)
    fs.append(("dir", b"", d)); bads.append(len(fs) - 1)
    fs.append(("missing", b"", "")); bads.append(len(fs) - 1)
    nobody = pwd.getpwnam("nobody").pw_uid
    os.chmod(d, 0o755)
    scripts = []
    for k in files + bads: scripts.append([(4, 0, k)])
    for k in files: scripts.append([(0, 0, k), (1, 0), (3, 0), (1, 0)])
    for k in bads: scripts.append([(0, 1, k)] + ([(3, 1)] if fs[k][0] == "dir" else []) + [(4, 0, files[3]), (4, 0, k), (4, 0, files[5])])
    scripts.append([(5, 0, n) for n in range(1, 35)])
    for k in big: scripts += [[(0, 0, k), (1, 0), (3, 0)], [(0, 0, k), (2, 0, (1 << 20) - 1, 1 << 20), (2, 0, len(fs[k][1]), len(fs[k][1]))]]
    for _ in range(ctx.scale(150, 1500)):
        ops = []
        state = {}      # slot -> (node, pos)
        for _ in range(r.randint(3, 14)):
            q = r.randrange(10)
            slot = r.randrange(4)
            if slot not in state or q == 0:
                k = r.choice(files) if r.random() < .75 else r.choice(bads)
                ops.append((0, slot, k))
                if fs[k][0] in ("file", "dir"): state[slot] = [k, 0]
                continue
            k, pos = state[slot]
            if fs[k][0] == "dir":
                ops.append((3, slot))
                continue
            size = len(fs[k][1])
            if q in (1, 2): ops.append((1, slot))
            elif q <= 6:
                n = r.choice([0, 1, 2, 3, 8, 16, 100, max(0, size - 1), size, size + 5, 70000 if size > 60000 else 5])
                m = r.choice([n, n, n + 1, n + 7, max(0, n - 1)])
                ops.append((2, slot, n, m))
                if n <= m: state[slot][1] = min(pos + n, size)
            elif q == 7: ops.append((6, slot))
            elif pos == 0:
                ops.append((3, slot))
                state[slot][1] = size
            else: ops.append((4, slot, r.choice(files + bads)))
        scripts.append(ops)
    paths = [p.encode() for _, _, p in fs]

    recd = ctx.sub("rec")
    os.chmod(recd, 0o777)

    def go(ij):
        i, ops = ij
        out, sc = os.path.join(recd, "r%d" % i), os.path.join(recd, "s%d" % i)
        with open(sc, "w") as h: h.write("\n".join(" ".join(map(str, o)) for o in ops) + "\n")
        p = subprocess.run([b"prog"] + paths, executable=c["exe"], env={"VOUT": out, "VOPS": sc}, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=60, cwd=d,
                           user=nobody, group=pwd.getpwnam("nobody").pw_gid, extra_groups=[])
        b = open(out, "rb").read() if os.path.exists(out) else b""
        if os.path.exists(out): os.remove(out)
        return p.returncode, b, p.stderr
    # paths are arguments 1..: renumber
    enc = [[(o[0], o[1], o[2] + 1) if o[0] in (0, 4) else o for o in ops] for ops in scripts]
    traces, metas = [], []
    for ops, (rc, b, err) in zip(scripts, ctx.pool(go, list(enumerate(enc)))):
        meta = "file operations %s" % [(["open", "size", "read", "readAll", "open+readAll", "describe", "gc"][o[0]],) + o[1:] + ((fs[o[2]][0], fs[o[2]][2], len(fs[o[2]][1])) if o[0] in (0, 4) else ()) for o in ops][:8]
        ev = []
        try:
            rs = records(b)
            p = 0
            for o in ops:
                def got():
                    return rs[p] == 1
                if o[0] == 0:
                    ev.append(["open", o[1] + 1, o[2] + 1, got(), [] if got() else rs[p + 1]])
                    p += 1 if got() else 2
                elif o[0] == 1:
                    ev.append(["fsize", o[1] + 1, got(), rs[p + 1] if got() else 0, [] if got() else rs[p + 1]])
                    p += 2
                elif o[0] == 2:
                    ev.append(["read", o[1] + 1, o[2], o[3], got(), rs[p + 1] if got() else [], [] if got() else rs[p + 1]])
                    p += 2
                elif o[0] == 3:
                    ev.append(["all", o[1] + 1, got(), rs[p + 1] if got() else [], [] if got() else rs[p + 1]])
                    p += 2
                elif o[0] == 4:
                    # a failure of either step; slot 99 is never read again
                    if fs[o[2]][0] in ("file", "dir"):
                        ev.append(["open", 99, o[2] + 1, True, []])
                        ev.append(["all", 99, got(), rs[p + 1] if got() else [], [] if got() else rs[p + 1]])
                    else: ev.append(["open", 99, o[2] + 1, got(), [] if got() else rs[p + 1]])
                    p += 2
                elif o[0] == 5:
                    ev.append(["text", o[2], rs[p]])
                    p += 1
            whole = p == len(rs) and rc == 0
        except (IndexError, ValueError, TypeError):
            whole = False
        if not whole:
            ctx.violation("%s: stops with status %s or records too little: %r %r" % (meta, rc, b[-200:], err[:200]), {"prog.clara": FILES, "ops.txt": repr(ops)})
            if ctx.too_many(5): return
            continue
        used = sorted({o[2] for o in ops if o[0] in (0, 4)})
        # only the nodes this run uses
        ren = {k + 1: j + 1 for j, k in enumerate(used)}
        for e in ev:
            if e[0] == "open": e[2] = ren[e[2]]
        traces.append({"w": {"argv": [], "envp": [], "fs": [{"k": fs[k][0], "b": list(fs[k][1]), "p": list(fs[k][2].encode())} for k in used]}, "ev": ev})
        metas.append(meta)
    if traces: judge(ctx, traces, metas, FILES)
