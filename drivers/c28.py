from analysiscommon import *


def algos(rng, datasets, calls, n):
    """training functions that remember what they are given; the scores they
    return depend on the training set and on the row, and are distinct"""
    index = []
    for d in datasets:
        index.append({tuple(row): a + 1 for a, row in enumerate(d.X.tolist())})
    salt = rng.randrange(1000)

    def make_algo(k):
        def algo(train_X, train_Y, train_q, test_X):
            rows = [tuple(v) for v in np.asarray(test_X).tolist()] + [tuple(v) for v in np.asarray(train_X).tolist()]
            d = [j for j in range(len(datasets)) if rows and all(v in index[j] for v in rows)]
            d = d[0] if d else 0
            test = [index[d].get(tuple(v), 0) for v in np.asarray(test_X).tolist()]
            train = [index[d].get(tuple(v), 0) for v in np.asarray(train_X).tolist()]
            h = (sum(train) * 7 + len(train) + salt * (k + 1)) % 61
            out = [((a * 37 + h * (a % 5 + 1)) % 101) / 16.0 + a / 512.0 for a in test]
            calls[d][k].append(dict(train=train, test=test, labels=encs(train_Y), lens=[int(v) for v in train_q], out=encs(np.array(out, dtype=np.float32))))
            return np.array(out, dtype=rng.choice([np.float32, np.float64]))
        algo.__name__ = "algo%d" % k
        return algo
    return [make_algo(k) for k in range(n)]


def one(ctx, datasets, recs, ms, na, L, k):
    from rankeval.analysis import statistical as S
    rng = ctx.rng
    calls = [[[] for _ in range(na)] for _ in datasets]
    al = algos(rng, datasets, calls, na)
    rec = dict(data=[dict(y=encs(d.y), sizes=[int(v) for v in np.diff(d.query_offsets)]) for d in datasets], metrics=recs, L=L, k=k,
               algos=[a.__name__ for a in al])
    ctx.mark(rec)
    np.random.seed(rng.randrange(2 ** 31))
    keep = [(d.X.copy(), d.y.copy(), d.query_ids.copy(), d.query_offsets.copy()) for d in datasets]

    def f():
        t = S.bias_variance(datasets, al, ms, L=L, k=k).transpose("dataset", "metric", "algo", "error")
        t = t.sel(error=["Error", "Bias", "Variance"])
        rec["axes"] = same(t.coords["dataset"], datasets) and same(t.coords["metric"], ms) and \
            [str(v) for v in t.coords["algo"].values] == rec["algos"]
        rec["res"] = deep(t.values)
    ok, v = ctx.call(f)
    rec.update(dict(st="ok") if ok else dict(st="exc", exc=v, msg=str(ctx.last_exc)[:200]))
    rec["calls"] = calls
    rec["kept"] = all(all(np.array_equal(a, b) for a, b in zip(q, (d.X, d.y, d.query_ids, d.query_offsets))) for q, d in zip(keep, datasets))
    ctx.emit(rec)


def rows(rng, nq, base):
    sizes = [rng.choice([1, 1, 2, 3, 4, 5]) for _ in range(nq)]
    n = sum(sizes)
    X = np.arange(n * 2, dtype=np.float32).reshape(n, 2) + base
    y = np.array([rng.randrange(5) for _ in range(n)], dtype=np.float32)
    return make(rng, X, y, sizes)


def run(ctx):
    rng = ctx.rng
    names = ("P", "R", "MRR", "RBP", "ERR", "NDCG", "MSE", "MSE", "MSE")
    for k in range(600 if ctx.thorough else 110):
        nd = rng.choice([1, 1, 1, 2])
        datasets = [rows(rng, rng.choice([2, 3, 4, 5, 7, 8, 9]), 1000 * j) for j in range(nd)]
        recs, ms = [], []
        for name in (["MSE"] if k % 3 == 0 else rng.sample(["P", "R", "MRR", "RBP", "ERR", "NDCG", "MSE"], rng.choice([1, 1, 2]))):
            p = MC.params(rng, [dict(y=[0] * 4)])
            if p["nores"] == "nan":
                p["nores"] = "1"
            if name == "MSE":
                p["cutoff"] = 0
            recs.append(dict(name=name, p=p))
            ms.append(MC.metric(name, p))
        one(ctx, datasets, recs, ms, rng.choice([1, 1, 2]), rng.choice([2, 3, 5]), rng.choice([2, 2, 3, 5, 10]))
