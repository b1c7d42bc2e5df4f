"""Conformance of compiled programs with ClaraCore: compile generated programs with the real compiler, record every
case's output and exit status, let TLC decide whether each recorded run is a behaviour of the specification."""
import json, os, random, re, time
from clara import *
from common import *

HOOKS = [Fn("vcase", [], INT, extern=True, attr="RawValues")]


def raw_decl(i):
    return Fn("vraw%d" % i, [("abcdef"[j], INT) for j in range(i)], INT, extern=True, attr="RawValues")


def respell(x, rng, p=.12, seen=None):
    """write some of the number literals of a program in other ways"""
    seen = set() if seen is None else seen
    if isinstance(x, (list, tuple)):
        for y in x: respell(y, rng, p, seen)
    elif isinstance(x, (N, Fn)) and id(x) not in seen:
        seen.add(id(x))
        if isinstance(x, N) and x.k == "int":
            if not hasattr(x, "txt") and rng.random() < p:
                x.txt = ("-" if x.v < 0 else "") + "0x" + rng.choice(["%x", "%X", "0%x", "000%x"]) % abs(x.v)
            return
        for y in list(x.__dict__.values()):
            if isinstance(y, (N, Fn, list, tuple)): respell(y, rng, p, seen)


class File:
    """one program with several entry points (functions without parameters)"""

    def __init__(self, prog, entries, flat=False, externs=(), mode="pretty", rng=None, paren=None, gc=None):
        self.prog, self.entries, self.flat, self.mode, self.rng, self.paren = prog, entries, flat, mode, rng, paren
        self.externs = list(externs)
        respell(list(prog.decls), random.Random(len(prog.decls) * 31 + len(entries)))
        self.hidden = []        # declarations of the library the specification needs to know

    def full(self):
        p = Prog()
        p.decls = [Fn("vcase", [], INT, extern=True, attr="RawValues")] + self.externs + list(self.prog.decls)
        if any(isinstance(d, Fn) and d.name == "main" and not d.params for d in p.decls):
            return p
        body = [das("vcaseNo", call("vcase", [], INT))]
        if len(self.entries) == 1:
            body = [expr(call(self.entries[0], [], NOTHING))]
        else:
            body.append(if_([(bin_("==", var("vcaseNo", INT), lit(i)), [expr(call(e, [], NOTHING))])
                             for i, e in enumerate(self.entries)]))
        p.decls = p.decls + [Fn("main", [], NOTHING, body)]
        return p

    def source(self):
        return source(self.full(), self.rng, self.mode, self.paren)

    def json(self):
        p = Prog()
        p.decls = list(self.hidden) + list(self.prog.decls)
        return Flatten(self.flat).prog(p)


def core_traces(ctx, data, chunk=200, fuel=150, timeout=700, par=1):
    """data: {"files": [...], "traces": [...]} -> {trace number: (state, pos, want)}"""
    f = ctx.last_json = os.path.join(ctx.sub("tr"), "data.json")
    with open(f, "w") as h:
        json.dump(data, h)
    cfg = "SPECIFICATION Spec\nINVARIANT Sane\nCHECK_DEADLOCK FALSE\nCONSTANTS\n  Chunk = %d\n  Fuel = %d\n  B = 512\n  LBits = 9\n  NL = 7\n" % (chunk, fuel)
    r = tlc(ctx, "CoreTrace", cfg, env={"CORE_JSON": f}, timeout=timeout)
    need_ok(r)
    res = {}
    for m in re.finditer(r'"VERDICT (\d+) (\S+) (\d+) (\d+) (.*)"', r.text):
        res[int(m.group(1))] = (m.group(2), int(m.group(3)), m.group(5), int(m.group(4)))
    missing = [i for i in range(1, len(data["traces"]) + 1) if i not in res]
    if missing:
        raise CheckError("no verdict for traces %s\n%s" % (missing[:10], tail(r.text)))
    return res


OUT_MAX = 60000


def check_core(ctx, files, timeout=10, what="", fuel=600, chunk=100, install=None, env_extra=None, probe="both", split=None):
    """compile & run all files, decide with ClaraCore, report violations"""
    ctx.build()

    def comp(f):
        f.src = f.source()
        return ctx.compile(f.src, install=install, args=getattr(f, "args", ()))
    t0 = time.time()
    results = ctx.pool(comp, files)
    ctx.count("s_compile", round(time.time() - t0, 1))
    data = {"files": [], "traces": []}
    jobs = []
    for f, r in zip(files, results):
        if r["rc"] != 0 or not r["exe"]:
            # narrow down: which case is rejected
            ctx.violation("a program within the rules of the language is not compiled (%s): rc=%s %s" % (what, r["rc"],
                          r["out"].decode(errors="replace")[:600]), {"prog.clara": f.src, "compiler-output.txt": r["out"]})
            continue
        data["files"].append(f.json())
        fi = len(data["files"])
        for i, e in enumerate(f.entries):
            jobs.append((f, r, i, e, fi))
    if ctx.too_many():
        return

    def go(j):
        f, r, i, e, fi = j
        env = {"VCASE": str(i)}
        env.update(env_extra or {})
        argv = [r["exe"]] + list(getattr(f, "argv", ()))
        x = run(argv, env=env, timeout=timeout if ctx.stuck < 8 else 3, cwd=r["dir"], scratch=ctx.dir, limit=1 << (23 if split else 20))
        if x[0] == "timeout":
            if ctx.stuck < 8:
                x = run(argv, env=env, timeout=60, cwd=r["dir"], scratch=ctx.dir)
            if x[0] == "timeout":
                ctx.stuck += 1
        return x
    t0 = time.time()
    outs = ctx.pool(go, jobs)
    ctx.count("s_run", round(time.time() - t0, 1))
    t0 = time.time()
    kept, arena = [], False
    for j, (rc, o, e) in zip(jobs, outs):
        if rc == 95:
            arena = True
            continue
        if split:
            o = split(j, rc, o)
            if o is None: continue
        if len(o) > OUT_MAX:
            ctx.count("long")
            o = o[:OUT_MAX]
            rc = rc if rc == "timeout" else -2
        data["traces"].append({"file": j[4], "entry": j[3], "out": list(o), "rc": -1 if rc == "timeout" else rc, "probe": probe})
        kept.append((j, rc, o, e))
    if not kept:
        return
    res = core_traces(ctx, data, chunk=chunk, fuel=fuel)
    if os.environ.get("VDEBUG"): print(sorted([(v[3], k, len(data["traces"][k-1]["out"])) for k, v in res.items()])[-12:], os.path.getsize(ctx.last_json))
    ctx.count("s_tlc", round(time.time() - t0, 1))
    n, broken = {}, None
    for t, (j, rc, o, e) in enumerate(kept, 1):
        st, pos, want, steps = res[t]
        n[st] = n.get(st, 0) + 1
        ctx.count("steps", steps * chunk)
        if st == "ok":
            ctx.validated += 1
            if len(ctx.samples) < 3 and len(o) < 300:
                ctx.samples.append({"case": j[3], "output": o.decode(errors="replace"), "status": rc})
        elif st in ("output", "extra-output", "status"):
            f, r, i, en, fi = j
            ctx.violation("%s: case %s: the recorded run is not a behaviour of ClaraCore (%s at byte %d; specification: %s; "
                          "recorded: rc=%s output ...%r, stderr %r)" % (what, en, st, pos, show(want), rc, o[max(0, pos - 60):pos + 80], e[:200]),
                          {"prog.clara": f.src, "case.txt": "VCASE=%d (%s)\n" % (i, en), "recorded.txt": o,
                           "trace.json": json.dumps(data["traces"][t - 1])})
            if ctx.too_many():
                return
        elif st.startswith("model"):
            broken = broken or "specification cannot explain case %s: %s" % (j[3], st)
        else:
            ctx.count("discarded_" + st)
    broken = broken or (arena and "harness arena exhausted")
    if broken:
        raise CheckError(broken)
    ctx.count("cases", len(kept))
    ctx.count("ok", n.get("ok", 0))
    return n


def show(want):
    v = [int(x) for x in re.findall(r"-?\d+", want)]
    try:
        return repr(bytes(v))
    except ValueError:
        return want
