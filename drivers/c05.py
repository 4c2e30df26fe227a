from datacommon import *
from vlib.child import enc


def one(ctx, ids, sizes, nf, tr, va, seed, how):
    from rankeval.dataset import Dataset
    X, y, q = make(ctx.rng, ids, sizes, nf)
    ds = content(X, y, q)

    rng_ = ctx.rng

    def f():
        d = Dataset(X, y, q)

        def go():
            rs = seed
            if how == "RandomState":
                rs = np.random.RandomState(seed)
            elif how == "global":
                np.random.seed(seed)
                rs = rng_.choice([None, np.random])
            elif how == "numpy integer":
                rs = np.int64(seed)
            return [read(p) for p in (d.split(tr, random_state=rs) if va == 0 else d.split(tr, va, random_state=rs))]
        return go(), go(), read(d)
    ok, v = ctx.call(f)
    rec = dict(kind="split", ds=ds, nf=nf, tr=enc(tr), va=enc(va), seed=str(seed), how=how, st="ok" if ok else "exc")
    rec["parts"], rec["again"], rec["after"] = v if ok else ([], [], ds)
    if not ok:
        rec["exc"] = v
    ctx.emit(rec)


def bad(ctx, n, tr, va):
    from rankeval.dataset import Dataset
    X, y, q = make(ctx.rng, list(range(n)), [2] * n, 2)
    ok, v = ctx.call(Dataset(X, y, q).split, tr, va)
    ctx.emit(dict(kind="bad ratios", n=n, tr=enc(tr), va=enc(va), refused=not ok))


def seedless(ctx, rs):
    """what cannot be a source of randomness"""
    from rankeval.dataset import Dataset
    X, y, q = make(ctx.rng, list(range(5)), [2] * 5, 2)
    ok, v = ctx.call(lambda: Dataset(X, y, q).split(0.5, random_state=rs))
    ctx.emit(dict(kind="no seed", what=repr(rs), refused=not ok))


def run(ctx):
    rng = ctx.rng
    for rs in ("seed", 0.5, [1, 2], {}, object, np.array([1.5])):
        seedless(ctx, rs)
    hows = ["int", "int", "RandomState", "global", "numpy integer"]
    k = 0
    for c in ctx.cases[0]:
        if c["kind"] != "split":
            continue
        tr, va = c["tr"] / 10.0, c["va"] / 10.0
        if c["tr"] + c["va"] > 10:
            bad(ctx, c["n"], tr, va)
        else:
            k += 1
            one(ctx, random_ids(rng, c["n"], True), [1 + (j + k) % 2 for j in range(c["n"])], 1, tr, va, k % 7, hows[k % 5])
    for _ in range(600 if ctx.thorough else 80):
        n = rng.choice([1, 2, 3, 5, 10, 33, 60])
        tr = rng.choice([0.0, 1.0, 0.5, 0.25, rng.random(), rng.random()])
        va = rng.choice([0, (1 - tr) * rng.random(), (1.0 - tr) / 2, 0.125 if tr <= 0.8 else 0])
        one(ctx, random_ids(rng, n, True), random_sizes(rng, n), rng.randrange(1, 4), tr, va, rng.choice([0, 1, 2 ** 32 - 1, rng.randrange(10 ** 6), rng.randrange(10 ** 6)]), rng.choice(hows))
    for n in (1, 4, 9):
        for tr, va in ((-0.1, 0.2), (0.2, -0.1), (1.5, 0), (0.5, 0.75), (1.0, 0.25), (-1.0, 0), (0.5, -0.5), (1.25, -0.5), (0, 1.5)):
            bad(ctx, n, tr, va)
