#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(H, "lib"), os.path.join(H, "checks")]
import importlib
have = {}
for mod in sorted(f[:-3] for f in os.listdir(os.path.join(H, "checks")) if f.endswith(".py")):
    m = importlib.import_module(mod)
    for n in dir(m):
        if len(n) == 3 and n[0] == "c" and n[1:].isdigit():
            have["C" + n[1:]] = getattr(m, n)
CORE = ("TLA+ operational semantics (ClaraCore.tla): TLC validates recorded runs of compiled programs as behaviours of the specification",
        "Generated programs are compiled by the real compiler and run; TLC decides for each recorded run whether it is a behaviour of the specification. Bounded by the generated programs.")
OTHER = {}
p = os.path.join(H, "tools", "techniques.json")
if os.path.exists(p): OTHER = json.load(open(p))
checks, na = [], []
for l in open(os.path.join(H, "properties.jsonl")):
    i = json.loads(l)["id"]
    if i not in have:
        na.append({"property": i, "reason": "no check built yet"})
        continue
    t, n = OTHER.get(i, CORE)
    checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % i,
                   "technique": t, "level": "model_checking", "level_note": n, "evidence_file": "evidence/%s.json" % i})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), "claimed;", [x["property"] for x in na])
