import itertools
from datacommon import *


def one(ctx, ids, sizes, nf, qdtype):
    from rankeval.dataset import Dataset
    rng = ctx.rng
    X, y, q = make(rng, ids, sizes, nf)
    q = q.astype(qdtype)
    keep = (X.copy(), y.copy(), q.copy())
    missing = [m for m in {0, 1, min(ids) - 1, max(ids) - 1, (min(ids) + max(ids)) // 2, max(ids) + 1} if m not in ids]

    def f():
        d = Dataset(X, y, q)
        lk, scalar = [], True
        for k in d.query_ids:
            a, b = d.get_query_offsets(k)
            scalar = scalar and np.ndim(a) == 0 and np.ndim(b) == 0
            lk.append(ints([k, a, b]))
        # any type that the ids fit in can be asked for
        dtype = rng.choice([None, None, np.int64] + (["float64"] if max(ids) < FAR else []) + ([np.int16] if max(map(abs, ids)) < 30000 else []))
        per = d.get_qids_dataset() if dtype is None else d.get_qids_dataset(dtype=dtype)
        refused = True
        for m in missing:
            try:
                d.get_query_offsets(int(m))
                refused = False
            except LookupError:
                pass
        return dict(st="ok", ids=ints(d.query_ids), offsets=ints(d.query_offsets), sizes=ints(d.get_query_sizes()),
                    iter=[ints(t) for t in d.query_iterator()], lookup=lk, missing_refused=refused,
                    per=ints(per), scalar=scalar, typed=dtype is None or per.dtype == dtype,
                    counts=ints([d.n_instances, d.n_features, d.n_queries]),
                    intact=all(np.array_equal(a, b) for a, b in zip(keep, (d.X, d.y, q))))
    ok, v = ctx.call(f)
    ctx.emit(dict(kind="layout", q=ints(keep[2]), nf=nf, out=v if ok else dict(st="exc", exc=v)))


def wrong(ctx, n, m):
    from rankeval.dataset import Dataset
    X = np.ones((n, 2), dtype=np.float32)
    ok, v = ctx.call(Dataset, X, np.ones(n, dtype=np.float32), np.arange(m, dtype=np.int32))
    ctx.emit(dict(kind="wrong length", n=n, m=m, refused=not ok))
    ok, v = ctx.call(Dataset, X, np.ones(m, dtype=np.float32), np.arange(n, dtype=np.int32))
    ctx.emit(dict(kind="wrong length", n=n, m=m, refused=not ok))


def scattered(ctx, q, qdtype):
    """the rows of some query are not next to each other"""
    from rankeval.dataset import Dataset
    n = len(q)
    ok, v = ctx.call(Dataset, np.arange(2 * n, dtype=np.float32).reshape(n, 2), np.ones(n, dtype=np.float32), np.array(q, dtype=qdtype))
    ctx.emit(dict(kind="scattered", q=ints(q), refused=not ok))


def grouped(q):
    return sum(1 for a, b in zip(q, q[1:]) if a != b) + 1 == len(set(q))


def run(ctx):
    rng = ctx.rng
    for n in range(3, 6):
        for q in itertools.product(range(1, 4), repeat=n):
            if not grouped(q):
                scattered(ctx, q, rng.choice([np.int32, np.int64]))
    for _ in range(400 if ctx.thorough else 60):
        k = rng.choice([2, 3, 5, 9, 40])
        ids = random_ids(rng, k, True)
        q = [i for i, m in zip(ids, random_sizes(rng, k)) for _ in range(m)]
        for _ in range(rng.choice([1, 1, 3])):
            q.insert(rng.randrange(len(q) + 1), rng.choice(ids))
        if not grouped(q):
            scattered(ctx, q, np.int64)
    for c in ctx.cases[0]:
        if c["kind"] == "layout":
            one(ctx, c["ids"], c["sizes"], 1 + len(c["ids"]) % 3, np.int32)
    for _ in range(900 if ctx.thorough else 150):
        n = rng.choice([1, 2, 3, 5, 9, 17, 40, 130])
        ids = random_ids(rng, n, True)
        one(ctx, ids, random_sizes(rng, n), rng.randrange(1, 5),
            np.int64 if max(ids) >= FAR else rng.choice([np.int32, np.int64, np.uint32] if min(ids) >= 0 else [np.int32, np.int64]))
    one(ctx, random_ids(rng, 700), random_sizes(rng, 700), 1, np.int32)
    for n in range(1, 8):
        for m in range(0, 10):
            if n != m:
                wrong(ctx, n, m)
