from analysiscommon import *


def one(ctx, rec, models, datasets, recs, ms):
    from rankeval.analysis import effectiveness as E
    rng = ctx.rng
    rec["metrics"] = recs
    rec["tests"] = []
    kinds = ["perf", "tree", "avg"]
    rng.shuffle(kinds)
    most = max(m.n_trees for m in models)
    for kind in kinds:
        cache = rng.random() < 0.3
        e = dict(kind=kind, cache=cache)

        def f():
            if kind == "perf":
                t = E.model_performance(datasets, models, ms, cache=cache).transpose("dataset", "model", "metric")
                axes = same(t.coords["metric"], ms)
            elif kind == "tree":
                e["step"] = rng.choice([1, 1, 2, 3, 4, 10, most, most + 1])
                t = E.tree_wise_performance(datasets, models, ms, e["step"], cache=cache).transpose("dataset", "model", "k", "metric")
                e["k"] = [int(v) for v in t.coords["k"].values]
                axes = same(t.coords["metric"], ms)
            else:
                t = E.tree_wise_average_contribution(datasets, models, cache=cache).transpose("dataset", "model", "trees")
                axes = True
            e["axes"] = axes and same(t.coords["dataset"], datasets) and same(t.coords["model"], models)
            e["data"] = deep(t.values)
        ctx.mark(rec)
        ok, v = ctx.call(f)
        e.update(dict(st="ok") if ok else dict(st="exc", exc=v, msg=str(ctx.last_exc)[:200]))
        rec["tests"].append(e)
    ctx.emit(rec)


def run(ctx):
    rng = ctx.rng
    for k in range(700 if ctx.thorough else 130):
        rec, models, datasets = setup(ctx)
        recs, ms = some_metrics(rng)
        one(ctx, rec, models, datasets, recs, ms)
    # many trees, with steps that do and do not divide their number
    for n in (40, 41) if not ctx.thorough else (40, 41, 60, 99, 100, 101):
        rec, models, datasets = setup(ctx, nmodels=2, ndata=1, trees=n, splits_=(1, 3))
        recs, ms = some_metrics(rng, 2)
        one(ctx, rec, models, datasets, recs, ms)
