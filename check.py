#!/usr/bin/env python3
"""check.py <property id>: decide one property on /repo's working tree"""
import importlib, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "lib"), os.path.join(HERE, "checks")]
from common import Ctx, main
TABLE = {}
for mod in sorted(f[:-3] for f in os.listdir(os.path.join(HERE, "checks")) if f.endswith(".py")):
    m = importlib.import_module(mod)
    for n in dir(m):
        if len(n) == 3 and n[0] == "c" and n[1:].isdigit():
            TABLE["C" + n[1:]] = getattr(m, n)


def go():
    prop = sys.argv[1]
    ctx = Ctx(prop)
    TABLE[prop](ctx)
    ctx.finish()


main(go)
