from datacommon import *


def one(ctx, ids, sizes, nf, folds, shuffle, how):
    from rankeval.dataset import Dataset
    X, y, q = make(ctx.rng, ids, sizes, nf)
    ds = content(X, y, q)
    seed = ctx.rng.randrange(10 ** 6)
    brief = ctx.rng.random() < 0.5     # leave out what is the default

    def f():
        d = Dataset(X, y, q)
        kw = dict(n_folds=folds, shuffle=shuffle)
        if brief:
            kw = {k: v for k, v in kw.items() if v != dict(n_folds=5, shuffle=True)[k]}
        np.random.seed(seed)
        parts = []
        if how == "interleaved":
            # two generators over the same dataset, advanced in turn
            other = d.kfold(**kw)
            fs = []
            for x in d.kfold(qids_only=True, **kw):
                fs.append([ints(p) for p in x])
                next(other, None)
        else:
            fs = [[ints(p) for p in x] for x in d.kfold(qids_only=True, **kw)]
        if how == "both":
            np.random.seed(seed)
            parts = [[read(p) for p in x] for x in d.kfold(**kw)]
        return dict(st="ok", folds=fs, parts=parts, after=read(d))
    ok, v = ctx.call(f)
    ctx.emit(dict(ds=ds, nf=nf, folds=folds, shuffle=shuffle, how=how,
                  out=v if ok else dict(st="exc", exc=v, folds=[], parts=[], after=ds)))


def run(ctx):
    rng = ctx.rng
    k = 0
    for c in ctx.cases[0]:
        if c["kind"] == "fold":
            k += 1
            for sh in (True, False):
                one(ctx, random_ids(rng, c["n"], True), [1 + (j + k) % 3 for j in range(c["n"])], 1, c["folds"], sh, "both")
    for _ in range(300 if ctx.thorough else 40):
        n = rng.choice([2, 3, 7, 20, 41, 90])
        f = rng.choice([rng.randrange(2, min(n, 12) + 1), min(n, 5)])
        one(ctx, random_ids(rng, n, True), random_sizes(rng, n), rng.randrange(1, 4), f, rng.random() < 0.7,
            rng.choice(["both", "both", "ids", "interleaved"]))
