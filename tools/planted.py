#!/usr/bin/env python3
"""rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json and tools/planted.json"""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(H + "/tools/planted.json"))
rows = ["| change | property | what it breaks | checks |", "|---|---|---|---|"]
for i in sorted(os.listdir(H + "/seeded")):
    m = json.load(open(H + "/seeded/%s/meta.json" % i))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"].replace("|", "/").replace("\n", " "), ", ".join("%s %s" % (c, v) for c, v in sorted(res.get(i, {}).items()))))
p = H + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"(<!-- planted:begin -->\n).*?(<!-- planted:end -->)", lambda m: m.group(1) + "\n".join(rows) + "\n" + m.group(2), s, flags=re.S)
open(p, "w").write(s)
print(len(rows) - 2)
