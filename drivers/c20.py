from metriccommon import *


def run(ctx):
    rng = ctx.rng
    names = ["MSE", "RMSE", "K", "Rho"]
    small(ctx, names)
    randoms(ctx, names, 45)
    # ties on both sides, constant sides
    for name in ("K", "Rho"):
        for _ in range(400 if ctx.thorough else 60):
            qs = []
            for _ in range(rng.choice([1, 2, 4])):
                n = size(rng)
                qs.append(dict(y=labels(rng, n), s=[rng.choice([0.0, 1.0, 2.5, -3.0]) for _ in range(n)] if rng.random() < 0.8 else [1.0] * n))
            evaluate(ctx, name, dict(DEFAULTS), qs)
    for _ in range(200 if ctx.thorough else 30):    # without a cutoff ties do not matter
        qs = [dict(y=labels(rng, n), s=[rng.choice([0.0, 1.0, 2.5]) for _ in range(n)]) for n in (size(rng), size(rng), 30)]
        evaluate(ctx, rng.choice(["MSE", "RMSE"]), dict(DEFAULTS), qs)
