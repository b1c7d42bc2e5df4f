#!/usr/bin/env python3
"""newbug.py FILE.py: FILE defines BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demos={name: source})];
writes seeded/<id>/ (patch, demo, expected output from the clean compiler, meta) and confirms each with plant.py."""
import json, os, runpy, shutil, subprocess, sys, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
env = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off")
only = sys.argv[2:]
for b in runpy.run_path(sys.argv[1])["BUGS"]:
    if only and b["id"] not in only: continue
    w = tempfile.mkdtemp(prefix="nb-")
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", w + "/repo"])
        d = H + "/seeded/" + b["id"]
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        if "demo" in b: open(d + "/demo.sh", "w").write(b["demo"])
        else: shutil.copy(H + "/tools/demo_run.sh", d + "/demo.sh")
        for n, t in b.get("files", {}).items(): open(d + "/" + n, "w").write(t)
        subprocess.check_call(["go", "build", "-o", w + "/clarac", "."], cwd=w + "/repo", env=env)
        for n, src in b.get("demos", {}).items():
            open(d + "/%s.clara" % n, "w").write(src.lstrip("\n"))
            r = subprocess.run([w + "/clarac", "-install", w + "/repo/install", "-prog", d + "/%s.clara" % n, "-out", w], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode == 0:
                x = subprocess.run([w + "/" + n], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=20)
                rc = x.returncode if x.returncode >= 0 else 128 - x.returncode
                got = x.stdout + b"status %d\n" % rc
            else:
                got = b"rejected\n"
            open(d + "/%s.expected" % n, "wb").write(got)
            print("---", b["id"], n); print(got.decode(errors="replace")[:700])
            if r.returncode and not b.get("reject"): print(r.stdout.decode(errors="replace")[:500])
        bad = False
        for f, o, nw in b["edits"]:
            p = w + "/repo/" + f
            t = open(p).read()
            if t.count(o) != 1: print("EDIT MATCHES", t.count(o), "TIMES", f, o[:60]); bad = True; break
            open(p, "w").write(t.replace(o, nw))
        if bad: continue
        open(d + "/patch.diff", "w").write(subprocess.check_output(["git", "-C", w + "/repo", "diff"]).decode())
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    finally:
        shutil.rmtree(w, ignore_errors=True)
    subprocess.run([sys.executable, H + "/tools/plant.py", b["id"]] + b.get("checks", []))
