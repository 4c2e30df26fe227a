"""Models and datasets for the scoring drivers."""
import os
from forest import *


def model(ctx, fr, fmt="QuickRank", **kw):
    p = ctx.path("m.model")
    if fmt == "QuickRank":
        quickrank(fr, p)
    elif fmt == "XGBoost":
        xgboost(fr, p)
    elif fmt == "ScikitLearn":
        scikit(fr, p)
    elif fmt == "LightGBM":
        lightgbm(ctx.rng, fr, p)
    elif fmt == "Jforests":
        jforests(ctx.rng, fr, p)
    elif fmt == "CatBoost":
        coreml(ctx.rng, fr, p)
    m = load(p, fmt, **kw)
    os.unlink(p)
    return m


def flat(m):
    a = arrays(m)
    del a["n_trees"], a["n_nodes"]
    return a


def cells(rng, fr, nf, n):
    """rows on and next to thresholds, with missing and extreme values"""
    X = probe_rows(rng, fr, nf, n)
    odd = [np.float32(v) for v in (np.nan, np.inf, -np.inf, -0.0, 0.0, 3.4028235e38, -3.4028235e38, 1e-45, -1e-45)]
    for i in range(n):
        for c in range(nf):
            if rng.random() < 0.12:
                X[i, c] = rng.choice(odd)
    return X


def layout(rng, X):
    """the same matrix in another memory layout"""
    k = rng.randrange(5)
    if k == 1:
        return np.asfortranarray(X)
    if k == 2:
        b = np.full((X.shape[0] * 2 + 1, X.shape[1] + 2), 7, dtype=np.float32)
        b[1::2, 1:-1] = X
        return b[1::2, 1:-1]
    if k == 3:
        return X[::-1].copy()[::-1]
    return X


FMTS = ["QuickRank", "XGBoost", "ScikitLearn", "LightGBM", "Jforests", "CatBoost"]


def random_model(ctx, exact, nf, n=None, splits_=None, fmt=None, single=True):
    """(model, forest, expected base, expected learning rate, format)"""
    rng = ctx.rng
    fmt = fmt or rng.choice(FMTS)
    n = n or rng.choice([1, 2, 3, 5, 8])
    lo = 1 if fmt == "Jforests" or not single else 0
    fr = forest(rng, n, [k for k in splits_ or range(8) if k >= lo], nf, "dyadic" if exact else rng.choice(["double", "short"]),
                "dyadic" if exact else "short", unique=exact and rng.random() < 0.7,
                weights=("1", "0.5", "2", "-0.25", "0.0") if exact else ("0.1", "0.7", "1", "1e-3"),
                shape_style=rng.choice(["random", "random", "left", "right", "balanced", "zigzag"]))
    kw, base, lr = {}, Fraction(0), Fraction(1)
    if fmt == "XGBoost":
        base = Fraction(1, 2)
    r = rng.random()
    if r < 0.45:
        b = rng.choice([0, 0.0, 1.5, -2, 0.25] if exact else [0.1, -3.7, 0, 1])
        kw["base_score"] = b
        base = Fraction(b)
    elif r < 0.55:
        kw["base_score"] = None
    if rng.random() < 0.5:
        l = rng.choice([1, 0.5, 2, -0.25, 1.0] if exact else [0.1, 0.05, 1, 1.3])
        kw["learning_rate"] = l
        lr = Fraction(l)
    return model(ctx, fr, fmt, **kw), fr, base, lr, fmt


from fractions import Fraction
