"""scikit-learn ensembles: fitted, exported, loaded and scored."""
import warnings
from loaders import *


def training(rng, rs, n, nf, style):
    X = rs.rand(n, nf)
    if style == "small":
        X *= 10.0 ** -rs.randint(3, 30, nf)
    elif style == "big":
        X = (X - 0.5) * 10.0 ** rs.randint(3, 30, nf)
    elif style == "int":
        X = rs.randint(-4, 5, (n, nf)).astype(float)
    elif style == "close":                       # neighbouring single-precision numbers
        X = np.float32(1.1) + rs.randint(0, 4, (n, nf)) * 2.0 ** -23
    elif style == "flat":
        X[:] = 0.25
    X = X.astype(np.float32)
    y = {"big": 1e6, "small": 1e-6}.get(style, 3.0) * (rs.rand(n) - 0.3) + (rng.choice([0, 0, 40]) if style != "small" else 0)
    return X, y


def regressor(rng, k):
    from sklearn.ensemble import GradientBoostingRegressor
    from sklearn.dummy import DummyRegressor
    kw = dict(n_estimators=rng.choice([1, 2, 3, 7]), learning_rate=rng.choice([0.1, 1.0, 0.05, 1e-3, 1.0 / 3, 1e-9, 0.0123456789]),
              random_state=rng.randrange(1000), max_depth=rng.choice([1, 2, 3, 6]), subsample=rng.choice([1.0, 1.0, 0.7]),
              loss=["squared_error", "absolute_error", "huber", "quantile"][k % 4])
    if k % 3 == 1:
        kw.update(max_depth=None, max_leaf_nodes=rng.choice([2, 3, 5, 9, 14]))      # nodes numbered as they grow
    if k % 5 == 2:
        kw["init"] = "zero"
    elif k % 5 == 3:
        kw["init"] = DummyRegressor(strategy=["mean", "median"][k // 5 % 2]) if k % 2 else DummyRegressor(strategy="quantile", quantile=0.3) \
            if k % 4 else DummyRegressor(strategy="constant", constant=rng.uniform(-5, 5))
    if k % 11 == 4:
        kw.update(n_iter_no_change=1, validation_fraction=0.3, n_estimators=9)
    return GradientBoostingRegressor(**kw)


def tree(a):
    a = a.tree_
    return dict(l=[int(v) for v in a.children_left], r=[int(v) for v in a.children_right], f=[int(v) for v in a.feature],
                t=encs(a.threshold), v=encs(a.value.ravel()))


def nested(a, k=0):
    if a.children_left[k] < 0:
        return {"o": repr(float(a.value.ravel()[k]))}
    return {"f": int(a.feature[k]), "t": repr(float(a.threshold[k])), "l": nested(a, a.children_left[k]), "r": nested(a, a.children_right[k])}


def exported(ctx, k):
    from rankeval.model import ProxyScikitLearn
    rng = ctx.rng
    rs = np.random.RandomState(rng.randrange(2 ** 31))
    nf = rng.choice([1, 2, 4, 12])
    style = ["unit", "small", "big", "int", "close", "flat"][k % 6]
    X, y = training(rng, rs, rng.choice([5, 12, 30, 60]), nf, style)
    g = regressor(rng, k).fit(X, y)
    est = [e[0] for e in g.estimators_]
    fr = [{"w": "1", "root": nested(e.tree_)} for e in est]
    P = np.vstack([X[:8], probe_rows(rng, fr, nf, 8)]).astype(np.float32)
    base = 0.0 if isinstance(g.init_, str) else float(g.init_.predict(X[:1])[0])
    rec = dict(kind="boosting", trees=[tree(e) for e in est], base=enc(base), lr=enc(float(g.learning_rate)), pred=encs(g.predict(P)), X=encm(P), limit=-1)
    p = ctx.path("m.txt")
    ctx.mark(dict(style=style, params=repr(g)))

    def f():
        ProxyScikitLearn.export_scikit_model(model=g, file_path=p)
        m = load(p, "ScikitLearn")
        a = arrays(m)
        d = dataset(P)
        yy = m.score(d)
        _, part, leaves = m.score(d, detailed=True)
        v = m.trees_nodes_value
        return dict(st="ok", m=a, reach=[[enc(v[n]) if 0 <= n < len(v) else "out of range" for n in row] for row in leaves],
                    base="none" if m.base_score is None else enc(m.base_score), lr=enc(m.learning_rate), y=encs(yy))
    ok, v = ctx.call(f)
    rec["out"] = v if ok else dict(st="exc", exc=v, msg=str(ctx.last_exc)[:200])
    ctx.emit(rec)


def others(ctx):
    """ensembles whose predictions are no base score plus equally shrunk trees, and things that are no ensembles"""
    from sklearn import ensemble, tree as tr, linear_model
    from rankeval.model import ProxyScikitLearn
    rs = np.random.RandomState(5)
    X = rs.rand(40, 3).astype(np.float32)
    y = rs.rand(40)
    c = rs.randint(0, 3, 40)
    for g, t in [(ensemble.RandomForestRegressor(n_estimators=2), y), (ensemble.ExtraTreesRegressor(n_estimators=2), y),
                 (ensemble.AdaBoostRegressor(n_estimators=2), y), (ensemble.BaggingRegressor(n_estimators=2), y),
                 (ensemble.HistGradientBoostingRegressor(max_iter=2), y), (tr.DecisionTreeRegressor(max_depth=2), y),
                 (linear_model.LinearRegression(), y), (ensemble.GradientBoostingClassifier(n_estimators=2), c),
                 (ensemble.GradientBoostingClassifier(n_estimators=2, init="zero"), c),
                 (ensemble.GradientBoostingRegressor(n_estimators=2, init=linear_model.LinearRegression()), y),
                 (ensemble.GradientBoostingRegressor(n_estimators=2, init=tr.DecisionTreeRegressor(max_depth=1)), y),
                 (ensemble.GradientBoostingRegressor(n_estimators=2), None)]:
        if t is not None:
            g.fit(X, t)
        ctx.mark(dict(model=repr(g)))
        ok, v = ctx.call(lambda: ProxyScikitLearn.export_scikit_model(model=g, file_path=ctx.path("m.txt")))
        ctx.emit(dict(kind="other", model=repr(g), out=dict(st="ok") if ok else dict(st="exc", exc=v)))


def run(ctx):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        others(ctx)
        for k in range(1200 if ctx.thorough else 240):
            exported(ctx, k)
