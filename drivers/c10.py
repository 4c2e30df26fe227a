from loaders import *


def run(ctx):
    rng = ctx.rng
    k = 0
    for fr, nf in forests(ctx, False):
        k += 1
        for fmt in ("XGBoost", "ScikitLearn"):
            p = ctx.path("m.txt")
            base = lr = ""
            if fmt == "XGBoost":
                xgboost(fr, p, stats=k % 2 == 0)
            else:
                base, lr = rng.choice(["", "0.606000", "0", "-1.25"]), rng.choice(["", "0.100000", "1", "0.05"])
                scikit(fr, p, base or None, lr or None)
            limit = -1 if k % 4 else rng.choice([1, len(fr), len(fr) + 1])
            observe(ctx, dict(forest=fr, base=base, lr=lr), fr, p, fmt, nf, limit, nrows=9)
    # thresholds where the next smaller float matters
    for t in ["16777216", "16777218", "33554432", "-16777216", "1e10", "-1e10", "3.4e38", "-3.4e38", "0", "-0.0", "1e-45", "-1e-45",
              "1e-38", "1", "-1", "0.5", "0.1", "2147483648", "123456789", "8388608", "8388609", "1.17549435e-38"]:
        fr = [{"w": "1", "root": {"f": 1, "t": t, "l": {"o": "1"}, "r": {"o": "2"}}},
              {"w": "1", "root": {"f": 0, "t": t, "l": {"f": 1, "t": t, "l": {"o": "1"}, "r": {"o": "2"}}, "r": {"o": "3"}}}]
        for fmt in ("XGBoost", "ScikitLearn"):
            p = ctx.path("m.txt")
            (xgboost if fmt == "XGBoost" else scikit)(fr, p)
            observe(ctx, dict(forest=fr, base="", lr=""), fr, p, fmt, 2, nrows=12)
