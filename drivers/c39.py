"""Histories of questions about a pool of models, datasets and metrics: every
answer against the one fresh copies of everything give, and what the questions
leave behind."""
import copy, hashlib, random
from analysiscommon import *


def digest_model(m):
    h = hashlib.sha256()
    for k in ("trees_root", "trees_weight", "trees_left_child", "trees_right_child", "trees_nodes_value", "trees_nodes_feature"):
        a = getattr(m, k)
        h.update(("%s %s %s" % (k, a.dtype, a.shape)).encode())
        h.update(np.ascontiguousarray(a).tobytes())
    return h.hexdigest()[:12] + repr((int(m.n_trees), int(m.n_nodes), m.name, str(m), enc(m.learning_rate) if m.learning_rate is not None else None,
                                      enc(m.base_score) if m.base_score is not None else None))


def digest_data(d):
    h = hashlib.sha256()
    for k in ("X", "y", "query_offsets"):
        a = np.asarray(getattr(d, k))
        h.update(("%s %s %s" % (k, a.dtype, a.shape)).encode())
        h.update(np.ascontiguousarray(a).tobytes())
    h.update(np.asarray(d.get_qids_dataset()).astype(np.int64).tobytes())
    return h.hexdigest()[:12] + repr((d.n_instances, d.n_features, d.n_queries, d.name, str(d)))


class Pool(object):
    """everything the questions are about; metrics are made anew on demand"""
    def __init__(self, models, datasets, recs, names):
        self.models, self.datasets = models, datasets
        self.metrics = [MC.metric(r["name"], r["p"]) for r in recs]
        for m, n in zip(self.metrics, names):
            if n:
                m.name = n

    def digests(self):
        return [digest_model(m) for m in self.models] + [digest_data(d) for d in self.datasets] + [str(m) for m in self.metrics]


# every question: (its name, the choice of its arguments, how it is asked of a pool; gives what was returned)
def pick(rng, n, most=2):
    return sorted(rng.sample(range(n), rng.randrange(1, min(n, most) + 1)))


def questions():
    from rankeval.analysis import effectiveness as E, feature as F, statistical as S, topological as T
    from rankeval.visualization import effectiveness as V
    from rankeval.visualization import topological as G

    def many(f):
        def ask(p, a):
            return [f(p, [p.datasets[k] for k in a["d"]], [p.models[k] for k in a["m"]], [p.metrics[k] for k in a["s"]], a)]
        return ask

    def one(f):
        return lambda p, a: f(p, p.datasets[a["d"][0]], p.models[a["m"][0]], p.metrics[a["s"][0]], a)

    def seeded(f):
        def ask(*x):
            np.random.seed(x[-1]["seed"])
            return f(*x)
        return ask

    def importance(p, d, m, s, a):
        """sums in single precision of which the order may differ between runs: what is zero up to rounding is no number to divide by,
        and the numbers come in units in which such rounding is small"""
        get = lambda: error() if a["flag"] else None
        norm = a["step"] % 2 == 0
        t = F.feature_importance(m, d, metric=get(), normalize=norm)
        if norm:
            top = np.max(np.abs(F.feature_importance(m, d, metric=get(), normalize=False).sel(type="importance").values))
            if not top > 1:
                return [t.sel(type="count")]
        v = t.sel(type="importance").values.astype(np.float64)
        top = max(1.0, float(np.max(np.abs(v)))) if v.size and np.all(np.isfinite(v)) else 1.0
        return [t.sel(type="count"), np.asarray([top]), v / (1e8 * top)]

    def topology(m, leaves):
        t = T.topological_analysis(m, include_leaves=leaves)
        return [t.topology, t.height_trees, t.avg_tree_shape(), t.fullness_per_level(), m.height_trees(), m.num_leaves()]

    def evaluated(v):
        return [np.asarray([v[0]]), v[1]]

    def error():
        from rankeval.metrics import Metric

        class Err(Metric):
            def __init__(self):
                super(Err, self).__init__("Err")

            def eval(self, dataset, y_pred):
                return super(Err, self).eval(dataset, y_pred)

            def eval_per_query(self, y, y_pred):
                return float(np.abs(y - y_pred).sum())
        return Err()

    def classes(ds, a):
        r = random.Random(a["seed"])
        return [[r.choice(["easy", "hard"]) for _ in range(d.n_queries)] for d in ds]

    def save(p, d, m, s, a):
        m.save(a["path"])
        with open(a["path"]) as f:
            return [f.read()]

    def dump(p, d, m, s, a):
        d.dump(a["path"], "svmlight")
        with open(a["path"]) as f:
            return [f.read()]

    def draw(p, d, m, s, a):
        return [str(G.export_graphviz(m, tree_id=a["seed"] % m.n_trees))]

    def plot(p, d, m, s, a):
        import matplotlib.pyplot as plt
        t = E.model_performance([d], [m], [s], cache=a["cache"])
        V.plot_model_performance(t, compare="models")
        plt.close("all")
        return [t]

    def parts(p, d, m, s, a):
        if d.n_queries < 3:
            return [np.zeros(0)]
        out = []
        np.random.seed(a["seed"])
        for x in d.split(train_size=0.4, vali_size=0.3):
            out += [x.X, x.y, np.asarray(x.get_qids_dataset())]
        return out

    def sub(p, d, m, s, a):
        x = d.subset_features(np.arange(d.n_features) == a["seed"] % d.n_features)
        return [x.X, x.y, np.asarray(x.get_qids_dataset())]

    def copied(p, d, m, s, a):
        c = m.copy(1 + a["seed"] % m.n_trees)
        return [c.score(d)]

    def algo(tx, ty, tq, x):
        return np.asarray(x)[:, 0].astype(np.float32) + np.float32(len(tx))

    def bias(p, ds, ms, ss, a):
        ds = [d for d in ds if d.n_queries >= 2]
        return S.bias_variance(ds, [algo], ss, L=2, k=2) if ds else np.zeros(0)

    return dict(
        performance=many(lambda p, ds, ms, ss, a: E.model_performance(ds, ms, ss, cache=a["cache"])),
        treewise=many(lambda p, ds, ms, ss, a: E.tree_wise_performance(ds, ms, ss, step=a["step"], cache=a["cache"])),
        contribution=many(lambda p, ds, ms, ss, a: E.tree_wise_average_contribution(ds, ms, cache=a["cache"])),
        querywise=many(lambda p, ds, ms, ss, a: E.query_wise_performance(ds, ms, ss, bins=a["bins"], cache=a["cache"])),
        classes=many(lambda p, ds, ms, ss, a: E.query_class_performance(ds, ms, ss, classes(ds, a), cache=a["cache"])),
        graded=many(lambda p, ds, ms, ss, a: E.document_graded_relevance(ds, ms, bins=a["bins"], cache=a["cache"])),
        confusion=many(lambda p, ds, ms, ss, a: E.rank_confusion_matrix(ds, ms, skip_same_label=a["flag"], cache=a["cache"])),
        significance=seeded(lambda p, a: [S.statistical_significance([p.datasets[k] for k in a["d"]], p.models[a["m"][0]], p.models[a["m"][-1]],
                                                                    [p.metrics[k] for k in a["s"]], n_perm=[50, 7, 15][a["seed"] % 3], cache=a["cache"])]),
        bias=seeded(many(bias)),
        importance=one(importance),
        topology=one(lambda p, d, m, s, a: topology(m, a["flag"])),
        score=one(lambda p, d, m, s, a: [m.score(d, cache=a["cache"])]),
        detailed=one(lambda p, d, m, s, a: list(m.score(d, detailed=True, cache=a["cache"]))),
        evaluate=one(lambda p, d, m, s, a: evaluated(s.eval(d, m.score(d, cache=a["cache"])))),
        save=one(save), dump=one(dump), draw=one(draw), plot=one(plot), parts=one(parts), subset=one(sub), copy=one(copied))


def form(x):
    """what one returned value says: texts exactly, numbers up to rounding"""
    if isinstance(x, str):
        return dict(text=[x], v=[])
    if hasattr(x, "dims"):
        text = [str(d) for d in x.dims] + [str(n) for n in x.shape]
        v = []
        for k in x.dims:
            c = x.coords[k].values
            if c.dtype.kind in "iuf":
                v += encs(c)
            else:
                text += [str(e) for e in c]
        return dict(text=text, v=v + encs(np.asarray(x.values, dtype=np.float64).ravel()))
    if hasattr(x, "todense"):
        x = x.todense()
    a = np.asarray(x)
    return dict(text=[str(n) for n in a.shape], v=encs(a.astype(np.float64).ravel()))


def arguments(rng, q, pool, path):
    return dict(d=pick(rng, len(pool.datasets)), m=pick(rng, len(pool.models)), s=pick(rng, len(pool.metrics)), cache=rng.random() < 0.6,
                step=rng.choice([1, 2, 3, 10]), bins=rng.choice([2, 5, 20]), flag=rng.random() < 0.5, seed=rng.randrange(2 ** 31), path=path)


def ask(ctx, f, pool, a):
    """(everything that was returned, what it says)"""
    def g():
        r = f(pool, a)
        return r, [form(x) for x in r]
    ok, v = ctx.call(g)
    return (v[0], dict(st="ok", says=v[1])) if ok else ([], dict(st="exc", says=[], exc="%s: %s" % (v, str(ctx.last_exc)[:200])))


def hist(ctx, qs, steps):
    rng = ctx.rng
    _, models, datasets = setup(ctx, nmodels=rng.choice([1, 2]), ndata=rng.choice([1, 2, 3]), splits_=(1, 3, 7), whole=True)
    recs, _ = some_metrics(rng, rng.choice([1, 2, 3]))
    names = [rng.choice([None, None, "mine"]) for _ in recs]
    if rng.random() < 0.3:      # datasets with the same rows and other labels, or the same shape and other rows
        d = datasets[0]
        from rankeval.dataset import Dataset
        y = d.y[::-1].copy() if rng.random() < 0.5 else d.y.copy()
        X = d.X.copy() if rng.random() < 0.5 else d.X[::-1].copy()
        datasets.append(Dataset(X, y, np.repeat(d.get_qids_dataset() if len(d.get_qids_dataset()) == d.n_queries else np.arange(d.n_queries), np.diff(d.query_offsets)).astype(np.int32)))
    pool = Pool(models, datasets, recs, names)
    pristine = copy.deepcopy((models, datasets))
    before, held = pool.digests(), []
    rec = dict(ev=[])
    path = ctx.path("out.txt")
    last = None
    for _ in range(steps):
        q, a = rng.choice(sorted(qs)), arguments(rng, None, pool, path)
        if last and rng.random() < 0.25:
            q, a = last
        elif last and rng.random() < 0.4:      # about the same things as before
            a = dict(a, d=last[1]["d"], m=last[1]["m"], s=last[1]["s"])
        last = (q, a)
        ctx.mark(dict(history=[[e["q"], e["a"]] for e in rec["ev"]], q=q, a=a))
        fresh = Pool(*copy.deepcopy(pristine), recs, names)
        _, want = ask(ctx, qs[q], fresh, a)
        state = rng.getstate()
        got, says = ask(ctx, qs[q], pool, a)
        now = pool.digests()
        e = dict(op="ask", q=q, a={k: v for k, v in a.items() if k != "path"}, got=says, want=want,
                 changed=[k + 1 for k in range(len(now)) if now[k] != before[k]],
                 lost=[h[0] for h in held if form(h[1]) != h[2]])
        rec["ev"].append(e)
        if e["changed"] or e["lost"]:
            break
        for x in got:
            if hasattr(x, "dims") and rng.random() < 0.3:
                x.values[...] = 777      # the caller's own table
            held.append(("answer %d" % len(rec["ev"]), x, form(x)))
    ctx.emit(rec)


def run(ctx):
    rng = ctx.rng
    qs = questions()
    for k in range(900 if ctx.thorough else 110):
        hist(ctx, qs, rng.choice([4, 6, 9, 12]))
