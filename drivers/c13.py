from scorecommon import *


def one(ctx, m, fr, base, lr, fmt, X, exact, only=None, **kw):
    n = X.shape[0]
    d = dataset(X)
    before = flat(m)
    rec = dict(fmt=fmt, m=before, base=enc(base), lr=enc(lr), nf=int(X.shape[1]), n=n, exact=exact)
    ctx.mark(rec)
    ok, v = ctx.call(m.score, d, **kw)
    if ok and v is None:
        ok, v = False, "None"
    sel = range(n) if only is None else only
    rec["X"] = encm(X[list(sel)]) if n else []
    rec["out"] = dict(st="ok", n=int(len(v)), y=encs([v[a] for a in sel if a < len(v)])) if ok else dict(st="exc", exc=v)
    rec["after"] = flat(m)
    ctx.emit(rec)


def run(ctx):
    rng = ctx.rng
    # every forest of the generator, with every combination of defaults
    for k, c in enumerate(ctx.cases[0]):
        if k % (1 if ctx.thorough else 2):
            continue
        from loaders import shape
        sh = [shape(s) for s in c["shapes"]]
        fr = forest(rng, len(sh), 0, 2, "dyadic", shapes=sh, unique=True, weights=("1", "0.5", "2"))
        fmt = ["QuickRank", "XGBoost"][k % 2]
        m = model(ctx, fr, fmt)
        one(ctx, m, fr, Fraction(k % 2, 2), Fraction(1), fmt, layout(rng, cells(rng, fr, 2, 8)), True)
    for k in range(700 if ctx.thorough else 150):
        exact = k % 3 != 0
        nf = rng.choice([1, 2, 4, 9])
        m, fr, base, lr, fmt = random_model(ctx, exact, nf)
        extra = rng.choice([0, 0, 1, 30])
        X = layout(rng, cells(rng, fr, nf + extra, rng.choice([0, 1, 2, 7, 16])))
        one(ctx, m, fr, base, lr, fmt, X, exact)
        need = max_feature(fr) + 1
        if k % 2:      # the number of features that just suffices, and one less
            one(ctx, m, fr, base, lr, fmt, cells(rng, fr, need, 3), exact)
            if need > 1 and any("f" in t["root"] for t in fr):
                one(ctx, m, fr, base, lr, fmt, np.zeros((3, need - 1), dtype=np.float32), exact)
        if k % 4 == 1:      # after copies and through the cache
            one(ctx, m.copy(), fr, base, lr, fmt, X, exact, cache=True)
    # many rows, trees, features, levels
    for nt, ns, nf, n, style in [(300, [3, 7], 5, 40, "random"), (3, 40, 3, 60, "left"), (3, 40, 3, 60, "right"),
                                 (4, 511, 300, 30, "balanced"), (2, 63, 2, 900, "random"), (40, 15, 400, 3000, "random")]:
        fr = forest(rng, nt, ns, nf, "dyadic", unique=True, shape_style=style, weights=("1", "0.5"))
        m = model(ctx, fr, learning_rate=0.5, base_score=1)
        X = cells(rng, fr, nf, n)
        one(ctx, m, fr, Fraction(1), Fraction(1, 2), "QuickRank", X, True, only=sorted(rng.sample(range(n), min(n, 60))))
    fr = forest(rng, 2, 6, 3, "dyadic", unique=True, weights=("1", "0.5"))
    for fmt, f in [("QuickRank", 32766), ("QuickRank", 32767), ("XGBoost", 32768), ("LightGBM", 40000), ("ScikitLearn", 65535), ("QuickRank", 65536), ("CatBoost", 70000)]:
        fr[0]["root"] = {"f": f, "t": "0.5", "l": {"o": "1"}, "r": {"o": "2"}}
        fr[1]["w"] = "0.5" if fmt == "QuickRank" else "1"
        m = model(ctx, fr, fmt)
        X = np.zeros((3, f + 1), dtype=np.float32)
        X[1, f] = 0.25
        X[2, f] = 1
        base = Fraction(1, 2) if fmt == "XGBoost" else Fraction(0)
        one(ctx, m, fr, base, Fraction(1), fmt, X, True)
        one(ctx, m, fr, base, Fraction(1), fmt, X[:, :f].copy(), True)
