"""Queries, metric objects and their evaluation."""
import numpy as np
from fractions import Fraction
from vlib.child import enc, encs
from datacommon import random_ids


def labels(rng, n, style=None, top=None):
    style = style or rng.choice(["graded", "graded", "binary", "zero", "sparse", "same", "fraction"])
    if style == "graded":
        return [rng.randrange(5) for _ in range(n)]
    if style == "binary":
        return [rng.randrange(2) for _ in range(n)]
    if style == "fraction":
        return [rng.choice([0, 0, 0.25, 0.5, 0.75, 1, 1.5, 2.25, 3.5]) for _ in range(n)]
    if style == "zero":
        return [0] * n
    if style == "same":
        return [rng.randrange(5)] * n
    y = [0] * n
    y[rng.randrange(n)] = rng.randrange(1, 5)
    return y


def scores(rng, n, ties=False):
    """distinct scores; with ties only where every order can be tried"""
    if ties and n <= 5:
        return [rng.choice([0.5, 1.0, -2.0]) for _ in range(n)]
    style = rng.randrange(4)
    if style == 0:
        v = rng.sample(range(-4 * n, 4 * n + 1), n)
        return [x / 8.0 for x in v]
    if style == 1:
        return [float(x) for x in rng.sample(range(n), n)]
    if style == 2:      # close together
        v = [float(np.float32(1.0 + k * 2.0 ** -20)) for k in range(n)]
        rng.shuffle(v)
        return v
    v = set()
    while len(v) < n:
        v.add(float(np.float32(rng.uniform(-1, 1) * 10.0 ** rng.randrange(-3, 4))))
    v = list(v)
    rng.shuffle(v)
    return v


def size(rng):
    return rng.choice([1, 1, 2, 3, 4, 5, 6, 8, 11, 20])


def query(rng, n=None, ties=False, lab=None):
    n = n or size(rng)
    return dict(y=labels(rng, n, lab), s=scores(rng, n, ties))


def build(qs, ids, dtype=np.float32, nf=1):
    from rankeval.dataset import Dataset
    y = np.array([v for q in qs for v in q["y"]], dtype=np.float32)
    s = np.array([v for q in qs for v in q["s"]], dtype=dtype)
    g = np.array([i for i, q in zip(ids, qs) for _ in q["y"]], dtype=np.int32)
    # the features identify the rows, so that datasets are different objects in content as well
    X = np.arange(len(y) * nf, dtype=np.float32).reshape(len(y), nf)
    return Dataset(X, y, g), s


DEFAULTS = dict(cutoff=0, thr="1", nores="0", p="1/2", impl="flat")


def metric(name, p):
    from rankeval import metrics as M
    from rankeval.metrics.precision_max import PrecisionMax
    kw = {}
    if p["cutoff"]:
        kw["cutoff"] = p["cutoff"]
    f = lambda k: float("nan") if p[k] == "nan" else float(Fraction(p[k]))
    if name in ("P", "R", "MRR", "RBP"):
        if p["thr"] != "1":
            kw["threshold"] = f("thr")
    if name in ("R", "MAP", "NDCG"):
        kw["no_relevant_results"] = f("nores")
    if name == "RBP":
        kw["p"] = f("p")
    if name == "Pf":
        kw["p_abandonment"] = f("p")
    if name in ("DCG", "NDCG"):
        kw["implementation"] = p["impl"]
    if name in ("K", "Rho"):
        kw = {}
    # a default has to be what the documentation says: sometimes it is left out
    left_out = dict(P=(), R=[("no_relevant_results", 0.0)], MAP=[("no_relevant_results", 1.0)], RBP=[("p", 0.5)], Pf=[("p_abandonment", 0.15)],
                    DCG=[("implementation", "flat")], NDCG=[("no_relevant_results", 1.0), ("implementation", "exp")])
    for k, v in left_out.get(name, ()):
        if kw.get(k) == v and p["cutoff"] % 2 == 0:
            del kw[k]
    cls = dict(P=M.Precision, R=M.Recall, PMax=PrecisionMax, MRR=M.MRR, MAP=M.MAP, RBP=M.RBP, ERR=M.ERR, Pf=M.Pfound, DCG=M.DCG,
               NDCG=M.NDCG, MSE=M.MSE, RMSE=M.RMSE, K=M.Kendalltau, Rho=M.SpearmanRho)[name]
    return cls(**kw)


def params(rng, qs):
    n = max(len(q["y"]) for q in qs)
    p = dict(cutoff=0 if rng.random() < 0.35 else rng.choice([1, 2, 3, 5, 10, n, n + 1, rng.randrange(1, n + 3)]),
             thr=rng.choice(["1", "1", "2", "3", "1/2", "5"]), nores=rng.choice(["0", "1", "1/2", "-1", "nan"]),
             p=enc(Fraction(rng.choice([0.5, 0.25, 0.8, 0.95, 0.15, 0.01, 0, 1]))), impl=rng.choice(["flat", "exp"]))
    return p


def evaluate(ctx, name, p, qs, ids=None, dtype=np.float32, m=None):
    """observation of one metric on one dataset, query by query and as a whole"""
    rng = ctx.rng
    ids = ids or random_ids(rng, len(qs))
    d, s = build(qs, ids, dtype)
    rec = dict(name=name, p=p, ids=[int(i) for i in ids], qs=[dict(y=encs(q["y"]), s=encs(q["s"])) for q in qs])
    ctx.mark(rec)

    def f():
        mm = m or metric(name, p)
        alone = []
        for q in qs:
            alone.append(enc((m or metric(name, p)).eval_per_query(np.array(q["y"], dtype=np.float32), np.array(q["s"], dtype=dtype))))
        mean, det = mm.eval(d, s)
        return dict(st="ok", alone=alone, mean=enc(mean), det=encs(det))
    ok, v = ctx.call(f)
    rec.update(v if ok else dict(st="exc", exc=v, msg=str(ctx.last_exc)[:200]))
    ctx.emit(rec)


def small(ctx, names, every=1):
    """all small queries, several to a dataset"""
    rng = ctx.rng
    cases = [dict(y=[int(v) for v in c["y"]], s=[float(v) for v in c["s"]]) for c in ctx.cases[0]]
    rng.shuffle(cases)
    for name in names:
        for k in range(0, len(cases), 6):
            qs = cases[k:k + 6]
            evaluate(ctx, name, params(rng, qs), qs, dtype=rng.choice([np.float32, np.float64]))


def randoms(ctx, names, n):
    rng = ctx.rng
    for name in names:
        for _ in range(n * (8 if ctx.thorough else 1)):
            ties = rng.random() < 0.25
            qs = [query(rng, ties=ties and rng.random() < 0.5) for _ in range(rng.choice([1, 1, 2, 5, 9]))]
            evaluate(ctx, name, params(rng, qs), qs, dtype=rng.choice([np.float32, np.float64]))
        qs = [query(rng, 150, lab="graded"), query(rng, 1), query(rng, 60, lab="sparse")]
        evaluate(ctx, name, params(rng, qs), qs)
        qs = [query(rng, 3) for _ in range(70)]
        evaluate(ctx, name, params(rng, qs), qs)
