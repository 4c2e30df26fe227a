from analysiscommon import *


def one(ctx, rec, models, datasets, recs, ms):
    from rankeval.analysis import statistical as S
    rng = ctx.rng
    rec["metrics"] = recs
    rec["tests"] = []
    ctx.mark(rec)

    def vals():
        return [[[encs(x.eval(d, m.copy().score(d))[1]) for x in ms] for m in models] for d in datasets]
    ok, v = ctx.call(vals)
    if not ok:
        rec.update(st="exc", exc=v)
        ctx.emit(rec)
        return
    rec.update(st="ok", vals=v)
    for a, b in ((0, 1), (1, 0), (0, 0))[:rng.choice([1, 2, 3])]:
        n = rng.choice([1, 7, 100, 400, 4000]) * (4 if ctx.thorough else 1)
        e = dict(a=a + 1, b=b + 1, n=n)
        np.random.seed(rng.randrange(2 ** 31))

        def f():
            t = S.statistical_significance(datasets, models[a], models[b], ms, n_perm=n, cache=rng.random() < 0.3)
            t = t.transpose("dataset", "metric", "p-value").sel({"p-value": ["one-sided", "two-sided"]})
            e["axes"] = same(t.coords["dataset"], datasets) and same(t.coords["metric"], ms)
            e["data"] = deep(t.values)
        ok, v = ctx.call(f)
        e.update(dict(st="ok") if ok else dict(st="exc", exc=v, msg=str(ctx.last_exc)[:200]))
        rec["tests"].append(e)
    ctx.emit(rec)


def own(gather):
    """a user's metric: the score of the first document of each query, or all of them gathered in one query (the mean is the same)"""
    from rankeval.metrics import Metric

    class Own(Metric):
        def __init__(self):
            super(Own, self).__init__("Own")

        def eval(self, dataset, y_pred):
            v = np.asarray([y_pred[a] for _, a, _ in dataset.query_iterator()], dtype=np.float64)
            if gather:
                v = np.concatenate([[v.sum()], np.zeros(len(v) - 1)])
            return v.mean(), v

        def eval_per_query(self, y, y_pred):
            return float(y_pred[0])
    return Own()


def near(ctx, m, fr):
    """a model that differs from m in few places"""
    c = m.copy()
    leaves = [k for k in range(len(c.trees_left_child)) if c.is_leaf_node(k)]
    for k in ctx.rng.sample(leaves, min(len(leaves), ctx.rng.choice([1, 2]))):
        c.trees_nodes_value[k] += ctx.rng.choice([1, -1, 8, -8])
    return c


def run(ctx):
    rng = ctx.rng
    for k in range(400 if ctx.thorough else 80):
        nf = 2
        m, fr, base, lr, fmt = random_model(ctx, True, nf, n=2, splits_=[7, 15])
        if k % 3:
            m2, b2, l2 = near(ctx, m, fr), base, lr
        else:
            m2, _, b2, l2, _ = random_model(ctx, True, nf, n=2, splits_=[3, 7])
        rec = dict(models=[], data=[])
        for mm, b, l in ((m, base, lr), (m2, b2, l2)):
            f = flat(mm)
            f.update(base=enc(b), lr=enc(l))
            rec["models"].append(f)
        datasets = []
        for _ in range(rng.choice([1, 1, 2])):
            X, y, sizes = random_data(rng, fr, nf, rng.choice([1, 2, 3, 4, 6, 9]))
            datasets.append(make(rng, X, y, sizes))
            rec["data"].append(dict(X=encm(X), y=encs(y), sizes=sizes))
        recs, ms = some_metrics(rng, rng.choice([1, 2]))
        if k % 4 == 0:
            p = MC.params(rng, [dict(y=[0] * 4)])
            g = rng.choice([[0, 1], [1, 0], [1], [0]])
            recs += [dict(name="own", p=p) for _ in g]
            ms += [own(x) for x in g]
        one(ctx, rec, [m, m2], datasets, recs, ms)
