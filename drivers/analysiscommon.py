"""Models, datasets and metrics for the analyses."""
from scorecommon import *
import metriccommon as MC

LABELS = ["graded", "graded", "binary", "zero", "sparse", "same"]


def random_data(rng, fr, nf, nq=None, lab=None, big=False, whole=False):
    """labels, rows and query sizes of a dataset"""
    if whole:
        lab = rng.choice(LABELS)
    nq = nq or rng.choice([1, 2, 3, 4])
    sizes = [rng.choice([1, 2, 3, 4, 5]) for _ in range(nq)]
    y = [v for n in sizes for v in MC.labels(rng, n, lab)]
    X = cells(rng, fr, nf, sum(sizes))
    return X, np.array(y, dtype=np.float32), sizes


def make(rng, X, y, sizes):
    from rankeval.dataset import Dataset
    ids = MC.random_ids(rng, len(sizes))
    return Dataset(X, y, np.repeat(np.array(ids, dtype=np.int64), sizes).astype(np.int32))


def setup(ctx, nmodels=None, ndata=None, trees=None, splits_=(1, 3, 7, 15), whole=False):
    """(record, models, datasets)"""
    rng = ctx.rng
    nf = rng.choice([1, 2, 3])
    models, rec, allfr = [], dict(models=[], data=[]), []
    for _ in range(nmodels or rng.choice([1, 2, 3])):
        m, fr, base, lr, fmt = random_model(ctx, True, nf, n=trees or rng.choice([1, 2, 3, 5, 7, 11]), splits_=list(splits_), fmt=None)
        models.append(m)
        allfr += fr
        f = flat(m)
        f.update(base=enc(base), lr=enc(lr))
        rec["models"].append(f)
    datasets = []
    for _ in range(ndata or rng.choice([1, 2, 3])):
        X, y, sizes = random_data(rng, allfr, nf, whole=whole)
        datasets.append(make(rng, X, y, sizes))
        rec["data"].append(dict(X=encm(X), y=encs(y), sizes=sizes))
    return rec, models, datasets


def some_metrics(rng, n=None, names=("P", "R", "MRR", "MAP", "RBP", "ERR", "Pf", "DCG", "NDCG", "PMax", "MSE")):
    recs, ms = [], []
    for name in rng.sample(names, n or rng.choice([1, 2, 3])):
        p = MC.params(rng, [dict(y=[0] * 4)])
        if name == "MSE":
            p["cutoff"] = 0
        recs.append(dict(name=name, p=p))
        ms.append(MC.metric(name, p))
    return recs, ms


def same(coord, objs):
    v = list(coord.values)
    return len(v) == len(objs) and all(a is b for a, b in zip(v, objs))


def deep(a):
    return encs(a) if a.ndim == 1 else [deep(x) for x in a]
