"""Shared machinery: scratch directory, building /repo, compiling and running Clara programs, TLC, evidence, verdicts."""
import atexit, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time, traceback
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
JOBS = 8
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class CheckError(Exception):
    """the check itself could not run"""


class Ctx:
    current = None

    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        atexit.register(shutil.rmtree, self.dir, ignore_errors=True)
        self.violations = []
        self.known = load_known(prop)
        self.known_hit = []
        self.cov = {}
        self.assumptions = []
        self.samples = []
        self.states = 0
        self.transitions = 0
        self.validated = 0
        self._built = False
        self._lock = threading.Lock()
        self._n = 0
        self.stats = {}
        self.hung = self.stuck = 0      # compilers / programs that did not end
        Ctx.current = self

    def path(self, *a):
        return os.path.join(self.dir, *a)

    def sub(self, name=None):
        with self._lock:
            self._n += 1
            d = self.path("%s%d" % (name or "d", self._n))
        os.makedirs(d)
        return d

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    def count(self, k, n=1):
        with self._lock:
            self.stats[k] = self.stats.get(k, 0) + n

    # -------------------------------------------------------------------------------------------- build
    def goenv(self):
        e = dict(os.environ)
        e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off")
        e.setdefault("GOCACHE", "/root/.cache/go-build")
        e.setdefault("HOME", "/root")
        return e

    def build(self):
        """the compiler from /repo's working tree & a scratch install directory with the harness's C file"""
        if self._built:
            return
        self.clarac = self.path("clarac")
        r = subprocess.run(["go", "build", "-o", self.clarac, "."], cwd=REPO, env=self.goenv(), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT)
        if r.returncode:
            raise CheckError("go build failed: " + r.stdout.decode(errors="replace"))
        self.install = self.path("install")
        shutil.copytree(os.path.join(REPO, "install"), self.install)
        shutil.copy(os.path.join(VERIF, "hooks", "hooks.c"), os.path.join(self.install, "init", "zz_hooks.c"))
        self.plain = os.path.join(REPO, "install")
        self._built = True

    def compile(self, src, name="prog", install=None, env=None, timeout=60, args=(), keep=None):
        """compile src (bytes); -> dict rc, out, exe (path or None), left (other files it left behind), dir"""
        d = keep or self.sub("c")
        tmp, outd = os.path.join(d, "tmp"), os.path.join(d, "out")
        os.makedirs(tmp, exist_ok=True)
        os.makedirs(outd, exist_ok=True)
        f = os.path.join(d, name + ".clara")
        with open(f, "wb") as h:
            h.write(src)
        e = dict(os.environ, TMPDIR=tmp)
        if env:
            e.update(env)
        # a compiler that hangs is tried again with more time; once several did, the others get less
        for lim in ((timeout, 3 * timeout) if self.hung < 4 else (8,) if self.hung < 24 else (2,)):
            rc, txt = bounded([self.clarac, "-install", install or self.install, "-prog", f, "-out", outd] + list(args), e, lim, d)
            if rc != "timeout":
                break
        if rc == "timeout":
            self.hung += 1
        exe = os.path.join(outd, name)
        left = sorted(os.listdir(tmp)) + [x for x in sorted(os.listdir(outd)) if x != name]
        return dict(rc=rc, out=txt, exe=exe if os.path.exists(exe) else None, left=left, dir=d, file=f)

    def pool(self, f, xs, jobs=JOBS):
        with ThreadPoolExecutor(jobs) as ex:
            return list(ex.map(f, xs))

    # -------------------------------------------------------------------------------------------- verdicts
    def violation(self, what, files=None, key=None):
        """files: {name: text/bytes} to keep for replay.  key identifies the failure for known findings."""
        for k in self.known:
            if key is not None and k.get("key") == key:
                if k not in self.known_hit:
                    self.known_hit.append(k)
                    print("KNOWN-FINDING: property=%s %s" % (self.prop, k.get("what", key)))
                return
        n = len(self.violations)
        d = os.path.join(VERIF, "replay", self.prop, "v%d" % n)
        if n < 20:
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d, exist_ok=True)
            with open(os.path.join(d, "what.txt"), "w") as h:
                h.write(what + "\n")
            for k, v in (files or {}).items():
                with open(os.path.join(d, k), "wb") as h:
                    h.write(v if isinstance(v, bytes) else str(v).encode())
        self.violations.append((what, d))
        print("violation: " + what[:2000])
        print("VIOLATION property=%s replay=%s" % (self.prop, d))
        sys.stdout.flush()

    def too_many(self, n=8):
        return len(self.violations) >= n

    def finish(self, **cov):
        c = dict(self.cov)
        c.update(cov)
        if self.level == "model_checking":
            c.setdefault("states", self.states)
            c.setdefault("transitions", self.transitions)
            c.setdefault("traces_validated_against_impl", self.validated)
        c.setdefault("samples", self.samples[:5])
        if self.stats:
            c.setdefault("counts", self.stats)
        ev = dict(property=self.prop, tier=self.tier if self.tier in ("quick", "thorough") else "quick", seed=self.seed,
                  level=self.level, coverage=c, assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.violations))
        p = os.path.join(VERIF, "evidence", self.prop + ".json")
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as h:
            json.dump(ev, h, indent=1, default=lambda o: o.decode(errors="replace") if isinstance(o, bytes) else str(o))
        print("%s: %s in %.1fs %s" % (self.prop, "VIOLATED" if self.violations else "held", time.time() - self.t0, json.dumps(self.stats)))
        sys.exit(1 if self.violations else 0)


def load_known(prop):
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("known", []) if k.get("property") == prop]


# -------------------------------------------------------------------------------------------------- running programs
MEM = 3 << 30       # address space of one compiler or program: a runaway one must not take the machine down


def _mem():
    os.setsid()
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))


def bounded(argv, env, timeout, cwd):
    """run argv with bounded memory and time, killing everything it started; -> (rc or 'timeout', output)"""
    with tempfile.TemporaryFile(dir=cwd) as fo:
        p = subprocess.Popen(argv, stdout=fo, stderr=fo, stdin=subprocess.DEVNULL, env=env, cwd=cwd, preexec_fn=_mem)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            rc = "timeout"
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        p.wait()
        fo.seek(0)
        # the end of a very long output says how it ended
        n = os.fstat(fo.fileno()).st_size
        fo.seek(max(0, n - (1 << 20)))
        return rc, fo.read(1 << 20)


def _limits():
    os.setsid()
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_FSIZE, (8 << 20, 8 << 20))
    resource.setrlimit(resource.RLIMIT_CPU, (60, 60))


def run(argv, env=None, timeout=20, cwd="/", limit=1 << 20, scratch=None):
    """-> (rc or 'timeout', stdout bytes, stderr bytes); signals are 128+n as a shell reports them"""
    with tempfile.TemporaryFile(dir=scratch) as fo, tempfile.TemporaryFile(dir=scratch) as fe:
        p = subprocess.Popen(argv, stdout=fo, stderr=fe, stdin=subprocess.DEVNULL, env=env or {}, cwd=cwd,
                             preexec_fn=_limits)
        try:
            p.wait(timeout=timeout)
            rc = p.returncode
            rc = 128 - rc if rc < 0 else rc
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
            rc = "timeout"
        fo.seek(0)
        fe.seek(0)
        return rc, fo.read(limit), fe.read(limit)


# -------------------------------------------------------------------------------------------------- TLC
def tlc(ctx, module, cfg, env=None, workers=JOBS, timeout=600, extra=(), mem="6g"):
    """run TLC on SPEC/module.tla with the text cfg; -> stdout text.  Raises CheckError unless TLC completed."""
    d = ctx.sub("tlc")
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
    with open(os.path.join(d, "run.cfg"), "w") as h:
        h.write(cfg)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-Xss64m", "-Xmx" + mem, "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + d, "-cp", TLA_CP, "tlc2.TLC", "-workers",
           str(workers), "-metadir", os.path.join(d, "states"), "-config", "run.cfg"] + list(extra) + [module + ".tla"]
    try:
        r = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC did not finish in %ds on %s" % (timeout, module))
    txt = r.stdout.decode(errors="replace")
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", txt.replace(",", "") if False else txt.replace(",", ""), 0)
    m = re.search(r"(\d+) states generated (\d+) distinct", txt.replace(",", ""))
    if m:
        ctx.transitions += int(m.group(1))
        ctx.states += int(m.group(2))
    r.text = txt
    return r


def need_ok(r):
    if "Model checking completed. No error has been found." not in r.text and "Finished in" not in r.text:
        raise CheckError("TLC failed:\n" + tail(r.text))
    if "Error:" in r.text:
        raise CheckError("TLC failed:\n" + tail(r.text))


def tail(t, n=60):
    keep = [l for l in t.splitlines() if not re.match(r"(Parsing|Semantic|Linting|Warning)", l)]
    return "\n".join(keep[-n:])


def main(f):
    """run a check function; infrastructure failures exit 2, unless violations were found before"""
    try:
        f()
    except Exception as x:
        if not isinstance(x, CheckError):
            traceback.print_exc()
        print("check error: %s" % x)
        if Ctx.current is not None and Ctx.current.violations:
            Ctx.current.finish(incomplete=str(x)[:300])
        sys.exit(2)
