from loaders import *


def run(ctx):
    rng = ctx.rng
    k = 0
    for fmt in ("LightGBM", "Jforests"):
        for fr, nf in forests(ctx, False, single_ok=fmt == "LightGBM"):
            k += 1
            for t in fr:
                t["w"] = rng.choice(["1.0", "0.1", "0.5", "2.25", "0.30000001192092896", "0.0", "-1.5"])
            p = ctx.path("m.txt")
            if fmt == "LightGBM":
                w = lightgbm(rng, fr, p, shrinkage=rng.choice(["0.1", "1", "0.05"]), variant=k % 2)
            else:
                w = jforests(rng, fr, p)
            limit = -1 if k % 4 else rng.choice([1, len(fr), len(fr) + 1])
            observe(ctx, dict(written=w, weights=[t["w"] for t in fr]), fr, p, fmt, nf, limit)
