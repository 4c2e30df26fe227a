from analysiscommon import *


def user_metric(name):
    """metrics a user could write"""
    from rankeval.metrics import Metric

    class User(Metric):
        def __init__(self):
            super(User, self).__init__(name)

        def eval(self, dataset, y_pred):
            return super(User, self).eval(dataset, y_pred)

        def eval_per_query(self, y, y_pred):
            y, s = y.astype(np.float64), np.asarray(y_pred, dtype=np.float64)
            if name == "AE":
                return float(np.abs(y - s).sum())
            if name == "SE":
                return float(((y - s) ** 2).sum())
            return float(s.max() - y[0])
    return User()


def get(name):
    from rankeval.metrics import MSE, RMSE
    return dict(default=lambda: None, MSE=MSE, RMSE=RMSE).get(name, lambda: user_metric(name))()


def one(ctx, m, X, y, sizes, names):
    from rankeval.analysis.feature import feature_importance
    rng = ctx.rng
    d = make(rng, layout(rng, X), y, sizes)
    if rng.random() < 0.2:
        yy = np.zeros(len(y) * 2, dtype=np.float32)
        yy[::2] = y
        d.y = yy[::2]
    before, keep = flat(m), (d.X.copy(), d.y.copy())
    rec = dict(kind="one", m=before, X=encm(X), y=encs(y), sizes=sizes, nf=int(X.shape[1]), tests=[])
    ctx.mark(rec)
    for name in names:
        e = dict(metric=name)

        def f():
            a = [feature_importance(m, d, get(name), normalize=n) for n in (False, True)]
            e["raw"] = encs(a[0].sel(type="importance").values)
            e["imp"] = encs(a[1].sel(type="importance").values)
            e["features"] = [int(v) for v in a[rng.randrange(2)].coords["feature"].values]
            e["count"] = encs(a[rng.randrange(2)].sel(type="count").values)
        ok, v = ctx.call(f)
        e.update(dict(st="ok") if ok else dict(st="exc", exc=v, msg=str(ctx.last_exc)[:200]))
        rec["tests"].append(e)
    rec["kept"] = flat(m) == before and np.array_equal(d.X, keep[0], equal_nan=True) and np.array_equal(d.y, keep[1])
    ctx.emit(rec)


def some(rng):
    return rng.sample(["default", "MSE", "RMSE", "AE", "SE", "MX"], 3)


def run(ctx):
    rng = ctx.rng
    from loaders import shape
    for k, c in enumerate(ctx.cases[0]):
        if k % (1 if ctx.thorough else 3):
            continue
        sh = [shape(s) for s in c["shapes"]]
        fr = forest(rng, len(sh), 0, 2, "dyadic", shapes=sh, weights=("1", "0.5", "0.25", "0.0", "-0.5"))
        m = model(ctx, fr, ["QuickRank", "XGBoost"][k % 2])
        X, y, sizes = random_data(rng, fr, 2, 2)
        one(ctx, m, X, y, sizes, some(rng))
    for k in range(900 if ctx.thorough else 130):
        nf = rng.choice([1, 2, 3, 5])
        m, fr, base, lr, fmt = random_model(ctx, True, nf, n=rng.choice([1, 1, 2, 3, 4]), splits_=[0, 1, 2, 3, 4, 7])
        X, y, sizes = random_data(rng, fr, nf + rng.choice([0, 0, 1, 4]), rng.choice([1, 2, 3, 5, 8]))
        if rng.random() < 0.2:       # every row goes to one side
            X[:] = rng.choice([np.float32(1e6), np.float32(-1e6), np.float32(np.nan)])
        one(ctx, m, X, y, sizes, some(rng))
        need = int(np.max(m.trees_nodes_feature)) + 1
        if k % 10 == 0 and need > 1:
            one(ctx, m, np.ascontiguousarray(X[:, :need - 1]), y, sizes, ["MSE", "AE"])
    # more rows than threads, deep trees
    for nt, ns, style in [(3, 15, "balanced"), (2, 20, "left"), (2, 20, "right"), (20, 3, "random")]:
        fr = forest(rng, nt, ns, 3, "dyadic", shape_style=style, weights=("1", "0.5", "0.125"))
        m = model(ctx, fr)
        X, y, sizes = random_data(rng, fr, 3, 20)
        one(ctx, m, X, y, sizes, ["MSE", "RMSE"])

    # a feature used more often than a small integer can count, and features with large numbers
    copies = 66000
    t = forest(rng, 1, 3, 2, "dyadic", shape_style="balanced")[0]
    X, y, sizes = random_data(rng, [t], 2, 3)
    repeated(ctx, t, copies, X, y, sizes, "MSE")
    if ctx.thorough:
        repeated(ctx, t, copies, X, y, sizes, "AE")
    repeated(ctx, t, 40, X, y, sizes, "AE")
    fr = forest(rng, 1, 1, 1, "dyadic")
    for f in (32767, 32768, 40000, 66000):
        fr[0]["root"]["f"] = f
        X = np.zeros((3, f + rng.choice([1, 5])), dtype=np.float32)
        X[1, f] = 1e6
        X[2, f] = -1e6
        many(ctx, fr, X, ["MSE", "AE"][f % 2])


def many(ctx, fr, X, name):
    """few splits among very many features"""
    from rankeval.analysis.feature import feature_importance
    m = model(ctx, fr)
    d = dataset(X, np.array([0, 1, 0], dtype=np.float32))
    e = dict(kind="many", nf=int(X.shape[1]), used=int(fr[0]["root"]["f"]))

    def f():
        a = feature_importance(m, d, get(name), normalize=True)
        c = a.sel(type="count")
        return dict(st="ok", n=int(a.sizes["feature"]), imp=enc(a.sel(type="importance", feature=e["used"]).values), count=enc(c.sel(feature=e["used"]).values),
                    total=enc(c.values.sum()), last=int(a.coords["feature"].values[-1]))
    ctx.mark(e)
    ok, v = ctx.call(f)
    e["out"] = v if ok else dict(st="exc", exc=v, msg=str(ctx.last_exc)[:200])
    ctx.emit(e)


def repeated(ctx, t, copies, X, y, sizes, name):
    """one tree many times over"""
    from rankeval.analysis.feature import feature_importance
    t = dict(t, w="0.5")
    m, one_ = model(ctx, [t] * copies), model(ctx, [t])
    d = make(ctx.rng, X, y, sizes)
    e = dict(kind="repeated", metric=name, copies=copies, m=flat(one_), X=encm(X), y=encs(y), nf=int(X.shape[1]))
    ctx.mark(e)
    ok, v = ctx.call(lambda: dict(st="ok", count=encs(feature_importance(m, d, get(name), normalize=False).sel(type="count").values)))
    e["out"] = v if ok else dict(st="exc", exc=v, msg=str(ctx.last_exc)[:200])
    ctx.emit(e)
