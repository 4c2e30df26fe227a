from analysiscommon import *


def one(ctx, rec, models, datasets):
    from rankeval.analysis import effectiveness as E
    rng = ctx.rng
    rec["tests"] = []
    ctx.mark(rec)
    for skip in (False, True):
        cache = rng.random() < 0.3
        e = dict(skip=skip, cache=cache)

        def f():
            t = E.rank_confusion_matrix(datasets, models, skip_same_label=skip, cache=cache).transpose("dataset", "model", "label_i", "label_j")
            e["labels"] = encs(t.coords["label_i"].values)
            e["axes"] = same(t.coords["dataset"], datasets) and same(t.coords["model"], models) and \
                e["labels"] == encs(t.coords["label_j"].values)
            e["data"] = [[[[int(v) for v in row] for row in b] for b in a] for a in t.values]
        ok, v = ctx.call(f)
        e.update(dict(st="ok") if ok else dict(st="exc", exc=v, msg=str(ctx.last_exc)[:200]))
        rec["tests"].append(e)
    ctx.emit(rec)


def run(ctx):
    rng = ctx.rng
    for k in range(1200 if ctx.thorough else 200):
        rec, models, datasets = setup(ctx, splits_=(0, 1, 7, 15, 31), whole=True)
        if k % 2:      # labels with gaps, negative or large
            names = rng.choice([[0, 2, 4], [1, 2], [-1, 0, 3], [7], [0, 100, 101, 5000]])
            for r, d in zip(rec["data"], datasets):
                d.y = np.array([rng.choice(names) for _ in d.y], dtype=np.float32)
                r["y"] = encs(d.y)
        one(ctx, rec, models, datasets)
    for n in (70, 150):
        rec, models, datasets = setup(ctx, nmodels=1, ndata=1, splits_=(15, 31))
        X = cells(rng, [], datasets[0].n_features, n + 2)
        y = np.array(MC.labels(rng, n + 2, "graded"), dtype=np.float32)
        rec["data"] = [dict(X=encm(X), y=encs(y), sizes=[1, n, 1])]
        one(ctx, rec, models, [make(rng, X, y, [1, n, 1])])
    for nq in (30,):
        nf = 2
        m, fr, base, lr, fmt = random_model(ctx, True, nf, n=4, splits_=[15, 31])
        f = flat(m)
        f.update(base=enc(base), lr=enc(lr))
        X, y, sizes = random_data(rng, fr, nf, nq, whole=True)
        one(ctx, dict(models=[f], data=[dict(X=encm(X), y=encs(y), sizes=sizes)]), [m], [make(rng, X, y, sizes)])
