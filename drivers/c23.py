from analysiscommon import *


def bounds(rng, wide):
    """(start, end) of the thresholds"""
    k = rng.randrange(5)
    if k < 2:
        return None, None
    if k == 2:
        return (0, 1) if not wide else (-4, 8)
    if k == 3:
        a = rng.choice([-1, 0, 0.25, 0.3])
        return a, a + rng.choice([0.5, 1, 2.25, 10])
    return (None, rng.choice([2000.5, 5000])) if rng.random() < 0.5 else (rng.choice([-2000.5, -5000]), None)


def one(ctx, rec, models, datasets, recs, ms):
    from rankeval.analysis import effectiveness as E
    rng = ctx.rng
    rec["metrics"] = recs
    rec["tests"] = []
    ctx.mark(rec)

    def vals():
        return [[[encs(x.eval(d, m.copy().score(d))[1]) for x in ms] for m in models] for d in datasets]
    ok, v = ctx.call(vals)
    if not ok:
        rec.update(st="exc", exc=v)
        ctx.emit(rec)
        return
    rec.update(st="ok", vals=v)
    kinds = ["query", "graded", "class"]
    if all(x == "nan" for a in v for b in a for c in b for x in c):
        kinds = ["graded"]       # no value, no range
    rng.shuffle(kinds)
    for kind in kinds:
        cache = rng.random() < 0.3
        e = dict(kind=kind, cache=cache)

        def f():
            if kind == "class":
                style = rng.randrange(3)
                names = [["a", "bb", "c"], [0, 1, 2, 7], ["nav", "info"]][style]
                cls = [[rng.choice(names) for _ in range(d.n_queries)] for d in datasets]
                arg = cls if rng.random() < 0.5 else [np.array(c) for c in cls]
                e["cls"] = [[str(v) for v in c] for c in cls]
                t = E.query_class_performance(datasets, models, ms, arg, cache=cache).transpose("dataset", "model", "metric", "classes")
                e["names"] = [str(v) for v in t.coords["classes"].values]
                axes = same(t.coords["metric"], ms)
            else:
                s, en = bounds(rng, kind == "graded")
                bins = rng.choice([None, 1, 2, 3, 4, 5, 8, 10])
                e.update(start="none" if s is None else enc(float(s)), end="none" if en is None else enc(float(en)), bins=bins or 0)
                kw = dict(start=s, end=en, cache=cache)
                if kind == "query":
                    t = E.query_wise_performance(datasets, models, ms, bins=bins, **kw).transpose("dataset", "model", "metric", "bin")
                    axes = same(t.coords["metric"], ms)
                else:
                    t = E.document_graded_relevance(datasets, models, bins=bins, **kw).transpose("dataset", "model", "label", "bin")
                    e["labels"] = encs(t.coords["label"].values)
                    axes = True
                e["edges"] = encs(t.coords["bin"].values)
            e["axes"] = axes and same(t.coords["dataset"], datasets) and same(t.coords["model"], models)
            e["data"] = deep(t.values)
        ok, v = ctx.call(f)
        e.update(dict(st="ok") if ok else dict(st="exc", exc=v, msg=str(ctx.last_exc)[:200]))
        rec["tests"].append(e)
    ctx.emit(rec)


def run(ctx):
    rng = ctx.rng
    for k in range(900 if ctx.thorough else 170):
        rec, models, datasets = setup(ctx)
        recs, ms = some_metrics(rng)
        one(ctx, rec, models, datasets, recs, ms)
