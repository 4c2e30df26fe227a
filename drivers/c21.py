from metriccommon import *

NAMES = ["P", "R", "PMax", "MRR", "MAP", "RBP", "ERR", "Pf", "DCG", "NDCG", "MSE", "RMSE", "K", "Rho", "own"]


def own():
    """a metric written by a user"""
    from rankeval.metrics import Metric

    class Spread(Metric):
        def __init__(self):
            super(Spread, self).__init__("Spread")

        def eval(self, dataset, y_pred):
            return super(Spread, self).eval(dataset, y_pred)

        def eval_per_query(self, y, y_pred):
            return float(np.max(y_pred) - np.min(y_pred)) + 100.0 * float(y[0]) if len(y) > 1 else float("nan")
    return Spread()


def one(ctx, name, qs):
    rng = ctx.rng
    n = len(qs)
    p = params(rng, qs)
    make = (lambda: own()) if name == "own" else (lambda: metric(name, p))
    dtype = rng.choice([np.float32, np.float64])
    rec = dict(name=name, p=p, sizes=[len(q["y"]) for q in qs], evals=[], wrong=[], qs=[dict(y=encs(q["y"]), s=encs(q["s"])) for q in qs])
    ctx.mark(rec)

    def alone():
        return [enc(make().eval_per_query(np.array(q["y"], dtype=np.float32), np.array(q["s"], dtype=dtype))) for q in qs]
    ok, v = ctx.call(alone)
    if not ok:
        rec["evals"].append(dict(st="exc", exc=v))
        ctx.emit(rec)
        return
    rec["alone"] = v
    m = make()
    held = []
    for t in range(rng.choice([2, 3, 4])):
        perm = list(range(n))
        if t:
            rng.shuffle(perm)
            if rng.random() < 0.4:
                perm = perm[:rng.randrange(1, n + 1)]
        ids = random_ids(rng, len(perm))
        d, s = build([qs[k] for k in perm], ids, dtype, nf=rng.choice([1, 3]))
        keep = (d.X.copy(), d.y.copy(), s.copy(), d.query_ids.copy(), d.query_offsets.copy())
        if rng.random() < 0.2:
            m = make()
        ok, v = ctx.call(m.eval, d, s)
        e = dict(perm=[k + 1 for k in perm], ids=ids, st="ok" if ok else "exc")
        if ok:
            e.update(mean=enc(v[0]), det=encs(v[1]), kept=all(np.array_equal(a, b) for a, b in
                     zip(keep, (d.X, d.y, s, d.query_ids, d.query_offsets))))
            held.append((v[1], np.array(v[1])))
        rec["evals"].append(e)
        if rng.random() < 0.5:
            # predictions that are not one per row
            w = rng.choice([s[:-1], s[:len(s) // 2], np.append(s, s[-1:]), np.append(s, s), s[:, None], s[None, :], s[:0], np.stack([s, s], axis=1)])
            if w.shape != s.shape:
                ok, v = ctx.call(m.eval, d, w)
                rec["wrong"].append(dict(shape=list(w.shape), refused=not ok))
    # what was returned before stays what it was
    for e, (a, b) in zip([e for e in rec["evals"] if e["st"] == "ok"], held):
        e["still"] = bool(np.array_equal(a, b, equal_nan=True))
    ctx.emit(rec)


def run(ctx):
    rng = ctx.rng
    for name in NAMES:
        for _ in range(150 if ctx.thorough else 16):
            qs = []
            for _ in range(rng.choice([1, 2, 3, 6, 10])):
                q = query(rng)
                f = rng.choice([1, 1, 1, 1000.0, -1, 2.0 ** -8])
                qs.append(dict(y=q["y"], s=[v * f for v in q["s"]] if len(set(np.float32(v * f) for v in q["s"])) == len(q["s"]) else q["s"]))
            one(ctx, name, qs)
        one(ctx, name, [query(rng, 2) for _ in range(60)])
        one(ctx, name, [query(rng, 90), query(rng, 1), query(rng, 40)])
