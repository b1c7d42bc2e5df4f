#!/usr/bin/env python3
"""plant.py ID [CHECK...]: confirm seeded/ID in a scratch copy of /repo (applies, builds, stable tests, demo on both trees),
then run the given checks (default: the property of meta.json) against the changed copy."""
import json, os, re, shutil, subprocess, sys, tempfile, time
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sid = sys.argv[1]
d = os.path.join(H, "seeded", sid)
meta = json.load(open(d + "/meta.json"))
env = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off")
w = tempfile.mkdtemp(prefix="plant-")
os.chmod(w, 0o755)
env["TMPDIR"] = w
try:
    repo = w + "/repo"
    subprocess.check_call(["git", "clone", "-q", "/repo", repo])
    demo = w + "/demo"
    shutil.copytree(d, demo, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    def run_demo():
        return subprocess.run(["bash", demo + "/demo.sh"], cwd=repo, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    if "-nodemo" not in sys.argv:
        a = run_demo()
        if a.returncode: print("DEMO FAILS ON CLEAN TREE", a.stdout.decode()[-1500:]); sys.exit(1)
    subprocess.check_call(["git", "-C", repo, "apply", d + "/patch.diff"])
    if "-nodemo" not in sys.argv:
        t = subprocess.run(["go", "vet", "."], cwd=repo, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        t = subprocess.run("go test -json -vet=off -count=1 -parallel 1 ./...", shell=True, cwd=repo, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
        ok = set()
        for l in t.stdout.decode(errors="replace").splitlines():
            try: j = json.loads(l)
            except Exception: continue
            if j.get("Action") == "pass" and j.get("Test"): ok.add(j["Package"] + "/" + j["Test"])
        base = json.load(open("/opt/vp/BASELINE.json"))
        names = base["stable"]
        miss = [n for n in names if n not in ok]
        b = run_demo()
        print(sid, "tests missing:", miss[:5], "demo rc with patch:", b.returncode)
        if miss or not b.returncode: print(b.stdout.decode()[-600:]); sys.exit(1)
        own = subprocess.run(["git", "-C", "/repo", "rev-list", "3312b63..HEAD"], stdout=subprocess.PIPE).stdout.decode().split()
        f = None
        for l in open(d + "/patch.diff"):
            if l.startswith("--- a/"): f = l[6:].strip()
            m = re.match(r"@@ -(\d+)", l)
            if m: n = int(m.group(1)); continue
            if f and l[:1] in " -" and not l.startswith("---"):
                if l[0] == "-":
                    c = subprocess.run(["git", "-C", "/repo", "blame", "-l", "-L%d,%d" % (n, n), "HEAD", "--", f], stdout=subprocess.PIPE).stdout.decode().split()[0]
                    if c in own: print("  NOTE: removes a line added by own commit", c[:8], l.rstrip())
                n += 1
    for c in [x for x in sys.argv[2:] if not x.startswith("-")] or [meta["property"]]:
        t0 = time.time()
        r = subprocess.run([sys.executable, H + "/check.py", c], cwd=H, env=dict(env, VERIF_REPO=repo), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        v = [l for l in r.stdout.decode(errors="replace").splitlines() if l.startswith("violation:")]
        pj = H + "/tools/planted.json"
        res = json.load(open(pj)) if os.path.exists(pj) else {}
        res.setdefault(sid, {})[c] = {0: "missed", 1: "caught"}.get(r.returncode, "error")
        json.dump(res, open(pj, "w"), indent=1, sort_keys=True)
        print("  %s: rc=%d %.0fs %s" % (c, r.returncode, time.time() - t0, v[0][:260] if v else r.stdout.decode()[-300:] if r.returncode else "MISSED"))
finally:
    shutil.rmtree(w, ignore_errors=True)
