"""C27 compilations side by side: behaviours of ClaraBuild (all interleavings of the compilers' steps) are replayed with real compiler
processes that are held at their steps; plus uncontrolled runs and repetitions judged by the same final states."""
import itertools, json, os, random, re, shutil, signal, subprocess, time
from common import *

WRAPPER = """#!/bin/bash
# gcc, held before and after linking until the schedule says so
d="$VCTL"
: > "$d/at"
while [ ! -e "$d/link" ]; do sleep 0.01; done
/usr/bin/gcc "$@"
rc=$?
: > "$d/linked"
while [ ! -e "$d/finish" ]; do sleep 0.01; done
exit $rc
"""


def good(n):
    return "fn main() {\n    println(%d)\n    s := \"p%d\"\n    println(s.append(toString(%d)))\n}\nfn f%d(a: int) int = a * %d\n" % (n, n, n * n, n, n), "%d\np%d%d\n" % (n, n, n * n)


BADSRC = {1: ("fn main() {\n    x := 1 + \"a\"\n}\n", b"prog.clara"), 2: ("fn main() {\n    x := $\n}\n", b"prog.clara"), 3: ("fn main() {\n    foo(\n", b"")}


def wait(cond, t=60):
    end = time.time() + t
    while time.time() < end:
        if cond(): return True
        time.sleep(0.005)
    return False


# file names (without .clara): different names never get in each other's way, however alike they are
STEMS = [("prog", "other2"), ("v.1", "v.2"), ("v.1", "v"), ("x.tar", "x.tar.gz"), ("a b", "a"), ("uni\u00e9", "uni"), ("p%d", "p%s"), ("-d", "d"), ("st*r", "st"), ("A", "a"), ("q'q\"", "q"), ("$x", "x"), ("clara", "clara.clara"), ("a.S", "a"), ("l" * 120, "l" * 121), ("_", "__")]


class Sched:
    """one behaviour with real compilers"""

    def __init__(self, ctx, cfg, stems=STEMS[0]):
        self.stems = stems
        self.ctx, self.cfg = ctx, cfg
        self.d = ctx.sub("b")
        self.tmp = os.path.join(self.d, "tmp")
        os.makedirs(self.tmp)
        self.bin = os.path.join(self.d, "bin")
        os.makedirs(self.bin)
        with open(os.path.join(self.bin, "gcc"), "w") as h: h.write(WRAPPER)
        os.chmod(os.path.join(self.bin, "gcc"), 0o755)
        self.p = {}
        self.step = {}

    def out(self, i): return os.path.join(self.d, "out%d" % self.cfg["dir"][i - 1])
    def ctl(self, i): return os.path.join(self.d, "ctl%d" % i)
    def src(self, i): return os.path.join(self.d, "src%d" % i, self.stems[self.cfg["name"][i - 1] - 1] + ".clara")
    def exe(self, i): return os.path.join(self.out(i), os.path.basename(self.src(i))[:-6])
    def text(self, i):
        n = self.cfg["prog"][i - 1]
        return BADSRC[(n % 3) + 1][0] if n in self.cfg["bad"] else good(n)[0]

    def advance(self, i):
        k = self.step[i] = self.step.get(i, 0) + 1
        if k == 1:
            os.makedirs(os.path.dirname(self.src(i)))
            os.makedirs(self.ctl(i))
            os.makedirs(self.out(i), exist_ok=True)
            os.mkfifo(self.src(i))
            env = dict(os.environ, TMPDIR=self.tmp, VCTL=self.ctl(i), PATH=self.bin + ":" + os.environ.get("PATH", "/usr/bin:/bin"))
            log = open(os.path.join(self.ctl(i), "log"), "wb")
            self.p[i] = subprocess.Popen([self.ctx.clarac, "-install", self.ctx.plain, "-prog", self.src(i), "-out", self.out(i)], stdout=log, stderr=log, stdin=subprocess.DEVNULL, env=env, cwd=self.ctl(i), start_new_session=True)
            time.sleep(0.01)
        elif k == 2:
            # the compiler opens the program (a pipe), which ends when we close it
            end = time.time() + 60
            while True:
                try:
                    fd = os.open(self.src(i), os.O_WRONLY | os.O_NONBLOCK)
                    break
                except OSError:
                    if time.time() > end or self.p[i].poll() is not None: return "the compiler does not read its program"
                    time.sleep(0.005)
            os.write(fd, self.text(i).encode())
            os.close(fd)
            if self.cfg["prog"][i - 1] in self.cfg["bad"]:
                if not wait(lambda: self.p[i].poll() is not None): return "no end"
            elif not wait(lambda: os.path.exists(os.path.join(self.ctl(i), "at")) or self.p[i].poll() is not None): return "not linked"
        elif k == 3:
            open(os.path.join(self.ctl(i), "link"), "w").close()
            if not wait(lambda: os.path.exists(os.path.join(self.ctl(i), "linked")) or self.p[i].poll() is not None): return "not linked"
        elif k == 4:
            open(os.path.join(self.ctl(i), "finish"), "w").close()
            if not wait(lambda: self.p[i].poll() is not None): return "no end"
        return None

    def kill(self):
        for p in self.p.values():
            try: os.killpg(p.pid, signal.SIGKILL)
            except OSError: pass
            p.wait()

    def verdict(self, outs):
        """outs: the program expected at each job's target (0: nothing).  -> list of complaints"""
        bad = []
        for i in sorted(self.p):
            n = self.cfg["prog"][i - 1]
            rc = self.p[i].returncode
            log = open(os.path.join(self.ctl(i), "log"), "rb").read()
            if n in self.cfg["bad"]:
                if rc != 1 or b"Errors" not in log: bad.append("compilation %d of a program with errors: status %s %r" % (i, rc, log[-300:]))
            elif rc != 0: bad.append("compilation %d fails: status %s %r" % (i, rc, log[-300:]))
            want = outs[i - 1]
            if want == 0:
                if os.path.exists(self.exe(i)): bad.append("compilation %d: an executable where none was expected" % i)
            else:
                try: r, o, e = run([self.exe(i)], cwd=self.d, scratch=self.ctx.dir)
                except OSError as x: r, o = "cannot run", str(x).encode()
                if r != 0 or o.decode(errors="replace") != good(want)[1]: bad.append("compilation %d: the executable is not program %d: %s %r" % (i, want, r, o[:200]))
            extra = [x for x in os.listdir(self.ctl(i)) if x not in ("log", "at", "link", "linked", "finish")] + [x for x in os.listdir(os.path.dirname(self.src(i))) if x != os.path.basename(self.src(i))]
            if extra: bad.append("compilation %d left %s behind" % (i, extra))
        left = os.listdir(self.tmp)
        if left: bad.append("temporary files left behind: %s" % left)
        names = {self.exe(i) for i in self.p}
        for k in sorted({self.out(i) for i in self.p}):
            odd = [x for x in os.listdir(k) if os.path.join(k, x) not in names]
            if odd: bad.append("files left in the output directory: %s" % odd)
        return bad


CONFIGS = [dict(prog=[11, 12], name=[1, 1], dir=[1, 2], bad=[]), dict(prog=[11, 12, 13], name=[1, 1, 1], dir=[1, 2, 3], bad=[]), dict(prog=[11, 12, 21], name=[1, 1, 1], dir=[1, 2, 3], bad=[21]),
           dict(prog=[11, 12, 13], name=[1, 2, 1], dir=[1, 1, 2], bad=[]), dict(prog=[11, 12], name=[1, 1], dir=[1, 1], bad=[]), dict(prog=[11, 22, 12], name=[1, 1, 1], dir=[1, 1, 2], bad=[22]),
           dict(prog=[11, 11, 11], name=[1, 1, 1], dir=[1, 2, 1], bad=[]), dict(prog=[11, 23, 24], name=[1, 2, 1], dir=[1, 1, 2], bad=[23, 24])]


def c27(ctx):
    r = random.Random(ctx.seed * 7919 + 27)
    ctx.build()
    jobs = []
    for n, cfg in enumerate(CONFIGS):
        f = ctx.path("build.json")
        json.dump(cfg, open(f, "w"))
        text = "SPECIFICATION Spec\n%sCHECK_DEADLOCK FALSE\nCONSTANTS\n Jobs <- JobsD\n Prog <- ProgD\n Name <- NameD\n Dir <- DirD\n Bad <- BadD\n Unique = %s\n"
        inv = "INVARIANT Faithful\nINVARIANT Own\nINVARIANT Clean\nINVARIANT Quiet\nINVARIANT Report\n"
        res = tlc(ctx, "MCBuild", text % (inv, "TRUE"), env={"BUILD_JSON": f})
        need_ok(res)
        bs = [([int(x) for x in re.findall(r"\d+", a)], [int(x) for x in re.findall(r"\d+", b)]) for a, b in re.findall(r'<<\s*"B",\s*<<([^>]*)>>,\s*<<([^>]*)>>\s*>>', res.text)]
        if len(bs) < 2: raise CheckError("no behaviours\n" + tail(res.text))
        ctx.count("behaviours_of_the_model", len(bs))
        k = ctx.scale(7, 80)
        pick = bs if len(bs) <= k else r.sample(bs, k)
        jobs += [(cfg, s, o, STEMS[0] if r.random() < .3 else r.choice(STEMS)) for s, o in pick]
        if n == 0:
            # the specification must be able to fail: sharing one temporary file breaks it
            res = tlc(ctx, "MCBuild", text % ("INVARIANT Own\n", "FALSE"), env={"BUILD_JSON": f})
            if "Invariant Own is violated" not in res.text: raise CheckError("ClaraBuild does not notice shared temporary files\n" + tail(res.text))

    def go(j):
        cfg, sched, outs, stems = j
        s = Sched(ctx, cfg, stems)
        try:
            for i in sched:
                e = s.advance(i)
                if e: return s, ["compilation %d: %s after steps %s: %s" % (i, e, s.step, open(os.path.join(s.ctl(i), "log"), "rb").read()[-300:])]
            return s, s.verdict(outs)
        finally:
            s.kill()
    for (cfg, sched, outs, stems), (s, bad) in zip(jobs, ctx.pool(go, jobs, 6)):
        ctx.count("behaviours_replayed")
        if bad:
            ctx.violation("compilations %s of %s, steps in the order %s: %s" % (cfg, stems, sched, "; ".join(bad)), {"schedule.json": json.dumps([cfg, sched, outs, stems])})
            if ctx.too_many(4): return
        else: ctx.validated += 1
        shutil.rmtree(s.d, ignore_errors=True)
    # uncontrolled: many compilers at once, one temporary directory, same file name
    for rnd in range(ctx.scale(2, 12)):
        d = ctx.sub("u")
        tmp = os.path.join(d, "tmp")
        os.makedirs(tmp)
        ps = []
        stems = [x for pr in r.sample(STEMS, len(STEMS)) for x in pr]
        shared = os.path.join(d, "shared")
        os.makedirs(shared)
        for i, stem in enumerate(list(dict.fromkeys(stems))[:16]):
            # different names, one output directory, one after another
            with open(os.path.join(d, stem + ".clara"), "w") as h: h.write(good(300 + i)[0])
            ps.append((300 + i, stem, None, subprocess.run([ctx.clarac, "-install", ctx.plain, "-prog", os.path.join(d, stem + ".clara"), "-out", shared], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=dict(os.environ, TMPDIR=tmp), cwd=d, timeout=180)))
        for n, stem, _, p in ps:
            try: r2, o, e = run([os.path.join(shared, stem)], cwd=d, scratch=ctx.dir)
            except OSError as x: r2, o = "cannot run", str(x).encode()
            if p.returncode != 0 or r2 != 0 or o.decode(errors="replace") != good(n)[1]: ctx.violation("16 programs compiled into one directory: %r: status %s %r, the executable is not that program: %s %r" % (stem + ".clara", p.returncode, p.stdout[-200:], r2, o[:200]), {stem + ".clara": open(os.path.join(d, stem + ".clara"), "rb").read()})
            else: ctx.count("names")
        odd = sorted(set(os.listdir(shared)) - {x[1] for x in ps})
        if odd: ctx.violation("files left in the output directory: %s" % odd, {})
        if ctx.too_many(4): return
        ps = []
        for i in range(16):
            sd, od = os.path.join(d, "s%d" % i), os.path.join(d, "o%d" % i)
            os.makedirs(sd)
            os.makedirs(od)
            n = 100 + i // 2 if i % 5 else 200 + i
            src = BADSRC[(n % 3) + 1][0] if n >= 200 else good(n)[0]
            with open(os.path.join(sd, "prog.clara"), "w") as h: h.write(src)
            ps.append((n, sd, od, subprocess.Popen([ctx.clarac, "-install", ctx.plain, "-prog", os.path.join(sd, "prog.clara"), "-out", od], stdout=open(os.path.join(sd, "log"), "wb"), stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=dict(os.environ, TMPDIR=tmp), cwd=sd)))
        for n, sd, od, p in ps:
            try: rc = p.wait(timeout=180)
            except subprocess.TimeoutExpired:
                p.kill()
                rc = "timeout"
            log = open(os.path.join(sd, "log"), "rb").read()
            exe = os.path.join(od, "prog")
            why = None
            if n >= 200:
                if rc != 1 or b"Errors" not in log or os.listdir(od): why = "program with errors: status %s, output directory %s, %r" % (rc, os.listdir(od), log[-300:])
            elif rc != 0 or os.listdir(od) != ["prog"]: why = "status %s, output directory %s, %r" % (rc, os.listdir(od), log[-300:])
            else:
                r2, o, e = run([exe], cwd=d, scratch=ctx.dir)
                if r2 != 0 or o.decode(errors="replace") != good(n)[1]: why = "the executable is not program %d: %s %r" % (n, r2, o[:200])
            if why is None and sorted(os.listdir(sd)) != ["log", "prog.clara"]: why = "files left behind: %s" % os.listdir(sd)
            if why: ctx.violation("16 compilations at once: " + why, {"prog.clara": open(os.path.join(sd, "prog.clara"), "rb").read()})
            else: ctx.count("uncontrolled")
        if os.listdir(tmp): ctx.violation("temporary files left behind: %s" % os.listdir(tmp), {})
        if ctx.too_many(4): return
    repeat(ctx, r)


MANY = """
struct a { x: int }
fn one() { x := 1 + true }
fn two() { y := undefinedName }
fn three(b: bool) int { if b { return 1 } }
fn four() { z := Nope(1)  w := A(true) }
fn main() { one(2) }
"""


def repeat(ctx, r):
    """the same program compiled again and again: same behaviour, same diagnostics"""
    from gen import general_file
    files = [general_file(r, cases=1, funcs=6, structs=.3, enums=.3, closures=.3, generics=.3, strings=.3) for _ in range(ctx.scale(3, 20))]
    srcs = [(f.source(), True) for f in files] + [(MANY.encode(), False)] + [(b[0].encode(), False) for b in BADSRC.values()]
    for src, ok in srcs:
        rs = ctx.pool(lambda _: ctx.compile(src), range(ctx.scale(6, 20)))
        seen = set()
        for c in rs:
            if c["rc"] == 0 and c["exe"]:
                rc, o, e = run([c["exe"]], env={"VCASE": "0"}, cwd=c["dir"], scratch=ctx.dir)
                seen.add(("exe", rc, o))
            else: seen.add(("diag", c["rc"], tuple(sorted(c["out"].replace(os.path.dirname(c["file"]).encode(), b"").splitlines()))))
            if c["left"]: ctx.violation("a compilation left files behind: %s" % c["left"], {"prog.clara": src})
        ctx.count("repetitions", len(rs))
        if len(seen) != 1: ctx.violation("the same program compiled %d times gives different results: %s" % (len(rs), sorted(map(str, seen))[:3]), {"prog.clara": src})
        if ok and next(iter(seen))[0] != "exe": ctx.violation("a valid program is rejected: %s" % list(seen)[:1], {"prog.clara": src})
