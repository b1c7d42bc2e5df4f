"""C18: type rules.  C26: declaration rules.  Programs judged by ClaraTypes and by the real compiler."""
import glob, os, random
from clara import *
from common import *
from gen import *
import judge as J, tygen as TG, declgen as DG


def big_sources(rng, n):
    """larger valid programs: generated ones, and the repository's own"""
    r = []
    for i in range(n):
        f = general_file(random.Random(rng.random()), cases=2, generics=0.3, closures=0.3)
        r.append(f.source().decode(errors="replace"))
    return r


def c18(ctx):
    rng = random.Random(ctx.seed)
    units = TG.slot_items(rng, full=ctx.thorough)
    units += TG.context_items(rng, ctx.scale(20, 100))
    units += TG.arity_items(rng) + TG.fn_types(rng) + TG.position_items(rng, ctx.thorough) + TG.signature_units(rng, ctx.scale(6, 20)) + TG.inference_units(rng, ctx.scale(.6, 1.0))
    units = [i for i in units if TG.ok(i)]
    rng.shuffle(units)
    items = TG.generic_items(rng)
    for t in big_sources(rng, ctx.scale(4, 60)):
        items += TG.mutate(rng, t, ctx.scale(30, 120))
    items = [i for i in items if TG.ok(i)]
    ctx.count("programs", len(items))
    ctx.count("units", len(units))
    for k in range(0, len(units), 20000):
        J.judge_units(ctx, units[k:k + 20000])
        if ctx.too_many(): return
    if not ctx.thorough:
        J.judge_units(ctx, [i for i in TG.more_valid(units) if TG.ok(i)])
    for k in range(0, len(items), 1500):
        J.judge(ctx, items[k:k + 1500], real=0.02)
        if ctx.too_many(): return
    if ctx.stats.get("accept", 0) < 1500:
        raise CheckError("too few of the generated programs are valid")


def c26(ctx):
    rng = random.Random(ctx.seed * 31 + 26)
    units = DG.scope_units(rng, ctx.scale(1200, 12000)) + DG.ret_units(rng, ctx.scale(500, 6000)) + DG.match_units(rng, ctx.scale(250, 3000))
    units += DG.limit_units(rng) + DG.type_units(rng) + DG.dup_units(rng) + DG.overload_units(rng, ctx.scale(250, 2000))
    units = [i for i in units if TG.ok(i)]
    for u in units: u.pre = DG.PRE
    for u in units: u.text = DG.PRE + u.unit + "fn main() { }\n"
    items = DG.pair_items(rng) + DG.main_items(rng)
    for t in big_sources(rng, ctx.scale(3, 40)):
        items += TG.mutate(rng, t, ctx.scale(30, 120))
    items = [i for i in items if TG.ok(i)]
    ctx.count("programs", len(items))
    ctx.count("units", len(units))
    for k in range(0, len(units), 20000):
        J.judge_units(ctx, units[k:k + 20000])
        if ctx.too_many(): return
    for k in range(0, len(items), 1500):
        J.judge(ctx, items[k:k + 1500], real=0.02)
        if ctx.too_many(): return
