from loaders import *


def run(ctx):
    k = 0
    for fr, nf in forests(ctx, False):
        k += 1
        for t in fr:
            t["w"] = ctx.rng.choice(["1", "0.1", "0.10000000149011612", "2.5", "0.5", "1e-3", "-0.75", "0", "-2e10"])
        for limit in ([-1] if k % 3 else [-1, 1, len(fr), len(fr) + 2]):
            p = ctx.path("m.xml")
            quickrank(fr, p, ctx.rng if k % 2 else None)
            observe(ctx, dict(forest=fr), fr, p, "QuickRank", nf, limit)
