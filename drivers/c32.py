"""Plots, read back from the artists matplotlib was given."""
import hashlib, json, re
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from matplotlib.collections import QuadMesh
from matplotlib.colors import to_hex
from analysiscommon import *


# ---------------------------------------------------------------- reading
def mentions(text, names):
    return [n for n in names if re.search(r"(?<![\w@.\-])" + re.escape(n) + r"(?![\w@.\-])", text)]


def color(artist):
    if hasattr(artist, "get_facecolor"):
        return to_hex(artist.get_facecolor(), True)
    return to_hex(artist.get_color(), True)


def legends(fig):
    """what the legends of the figure say about colours"""
    m = {}
    for ax in fig.axes:
        g = ax.get_legend()
        if g is not None:
            for h, t in zip(g.legend_handles, g.get_texts()):
                if not (hasattr(h, "get_marker") and h.get_marker() not in (None, "None", "", " ")):
                    m.setdefault(color(h), t.get_text())
    return m


def nearest(items, x):
    return min(items, key=lambda e: abs(e[0] - x))[1] if items else "?"


def shown(v, lo, hi):
    lo, hi = min(lo, hi), max(lo, hi)
    eps = 1e-9 * max(1.0, abs(lo), abs(hi))
    return not np.isfinite(v) or lo - eps <= v <= hi + eps


def panel(ax, cmap, names):
    texts = [ax.get_title(), ax.get_ylabel(), ax.get_xlabel()]
    if ax.get_legend() is not None:
        texts += [t.get_text() for t in ax.get_legend().get_texts()]
    says = {d: mentions("\n".join(texts[:3]), ns) for d, ns in names.items()}
    own = {d: mentions("\n".join(texts), ns) for d, ns in names.items()}
    ylim, xlim = ax.get_ylim(), ax.get_xlim()
    series, marks, visible = [], [], True
    bars = []
    ticks = [(float(p), t.get_text().strip()) for p, t in zip(ax.get_xticks(), ax.get_xticklabels())]
    for c in ax.containers:
        if not len(c):
            continue
        pts = []
        for b in c:
            x = b.get_x() + b.get_width() / 2.0
            pts.append([nearest(ticks, x), enc(b.get_y() + b.get_height())])
            bars.append((x, [cmap.get(color(c[0]), "?"), pts[-1][0]]))
            h = b.get_y() + b.get_height()
            visible = visible and (not np.isfinite(h) or shown(h, *ylim) and shown(x, *xlim))
        series.append(dict(name=cmap.get(color(c[0]), "?"), pts=pts))
    for l in ax.lines:
        xs, ys = np.ma.filled(np.ma.asarray(l.get_xdata(), dtype=float), np.nan), np.ma.filled(np.ma.asarray(l.get_ydata(), dtype=float), np.nan)
        if l.get_marker() not in (None, "None", "", " "):
            marks += [[enc(x), enc(y)] for x, y in zip(xs, ys)]
            continue
        visible = visible and all(shown(y, *ylim) and shown(x, *xlim) for x, y in zip(xs, ys) if np.isfinite(y))
        series.append(dict(name=cmap.get(color(l), "?"), pts=[[enc(x), enc(y)] for x, y in zip(xs, ys)]))
    notes = []
    for t in ax.texts:
        if t.get_text():
            x, y = t.get_position()
            notes.append(nearest(bars, x) + [number(t.get_text())])
    return dict(says=says, own=own, series=series, marks=marks, notes=notes, visible=bool(visible))


def number(s):
    try:
        return enc(Fraction(s.strip()))
    except (ValueError, ZeroDivisionError):
        try:
            return enc(float(s))
        except ValueError:
            return "?"


def mesh(ax, names):
    out = dict(says={d: mentions(ax.get_title(), ns) for d, ns in names.items()}, x=ax.get_xlabel().strip(), y=ax.get_ylabel().strip(), cells=[])
    for c in ax.collections:
        if isinstance(c, QuadMesh):
            co = c.get_coordinates()
            a = np.ma.filled(np.ma.asarray(c.get_array(), dtype=float).reshape(co.shape[0] - 1, co.shape[1] - 1), -np.inf)
            for i in range(a.shape[0]):
                for j in range(a.shape[1]):
                    out["cells"].append([[float(co[i, j, 0] + co[i, j + 1, 0]) / 2, float(co[i, j, 1] + co[i + 1, j, 1]) / 2], enc(a[i, j])])
    xs, ys = sorted({c[0][0] for c in out["cells"]}), sorted({c[0][1] for c in out["cells"]})
    out["cells"] = [[xs.index(c[0][0]) + 1, ys.index(c[0][1]) + 1, c[1]] for c in out["cells"]]
    return out


def whole(fig, names):
    """the names in the titles of the figure"""
    t = [ax.get_title() for ax in fig.axes]
    if fig._suptitle is not None:
        t.append(fig._suptitle.get_text())
    return {d: mentions("\n".join(t), ns) for d, ns in names.items()}


def digest(fig):
    """everything that was drawn"""
    out = [fig._suptitle.get_text() if fig._suptitle is not None else ""]

    def walk(ax):
        out.append([ax.get_title(), ax.get_xlabel(), ax.get_ylabel(), [t.get_text() for t in ax.texts], repr(ax.get_ylim()), repr(ax.get_xlim())])
        for p in ax.patches:
            out.append([p.get_x(), p.get_y(), p.get_width(), p.get_height()] if hasattr(p, "get_width") else "patch")
        for l in ax.lines:
            out.append([repr(np.asarray(l.get_xdata()).tolist()), repr(np.asarray(l.get_ydata()).tolist()), str(l.get_color())])
        for c in ax.collections:
            if isinstance(c, QuadMesh):
                out.append(repr(np.asarray(c.get_array()).tolist()))
        for p in getattr(ax, "parasites", []):
            walk(p)
    for ax in fig.axes:
        walk(ax)
    return hashlib.sha256(json.dumps(out, default=repr).encode()).hexdigest()[:16]


# ----------------------------------------------------------------- tables
KINDS = ["performance", "treewise", "contribution", "querywise", "graded", "confusion", "classes"]
COMPARE = dict(performance=["models", "metrics"], treewise=["models", "metrics", "datasets"], querywise=["models", "metrics"],
               classes=["models", "metrics"])


def cast(ctx, whole_labels=True):
    """datasets, models and metrics with telling names"""
    rng = ctx.rng
    rec, models, datasets = setup(ctx, nmodels=rng.choice([1, 2, 3, 5]), ndata=rng.choice([1, 1, 2]), splits_=(1, 3), whole=True)
    for k, d in enumerate(datasets):
        d.name = rng.choice(["data %s", "%s test", "istella-%s"]) % "ABC"[k]
        d._hash = None
    for k, m in enumerate(models):
        m.name = rng.choice(["model %d", "LambdaMART_%d", "xgb %d leaves"]) % (k + 1)
    while True:
        _, metrics = some_metrics(rng)
        if len({str(m) for m in metrics}) == len(metrics):
            return models, datasets, metrics


def numbers(rng, shape, style):
    n = int(np.prod(shape))
    f = dict(unit=lambda: rng.random(), neg=lambda: rng.uniform(-1, 1), below=lambda: -rng.random(), zero=lambda: 0.0,
             big=lambda: rng.uniform(0, 400), nan=lambda: rng.choice([float("nan"), rng.random()]), allnan=lambda: float("nan"),
             tiny=lambda: rng.random() * 0.01, few=lambda: rng.choice([0.25, 0.5]))[style]
    return np.array([f() for _ in range(n)]).reshape(shape)


def table(ctx, kind, models, datasets, metrics):
    """a table of this kind: computed by the analysis or made up"""
    import xarray as xr
    from rankeval.analysis import effectiveness as E
    rng = ctx.rng
    D, M, T = len(datasets), len(models), len(metrics)
    if rng.random() < 0.45:
        if kind == "performance":
            return E.model_performance(datasets, models, metrics)
        if kind == "treewise":
            return E.tree_wise_performance(datasets, models, metrics, step=rng.choice([1, 2, 5]))
        if kind == "contribution":
            return E.tree_wise_average_contribution(datasets, models)
        if kind == "querywise":
            return E.query_wise_performance(datasets, models, metrics, bins=rng.choice([2, 5, 20]))
        if kind == "graded":
            return E.document_graded_relevance(datasets, models, bins=rng.choice([2, 5, 20]))
        if kind == "confusion":
            return E.rank_confusion_matrix(datasets, models, skip_same_label=rng.random() < 0.5)
        cl = [[rng.choice(["easy", "hard", "mid"]) for _ in range(d.n_queries)] for d in datasets]
        return E.query_class_performance(datasets, models, metrics, cl)
    style = rng.choice(["unit", "unit", "neg", "below", "zero", "big", "nan", "allnan", "tiny", "few"])
    make_ = lambda dims, coords, name, **k: xr.DataArray(numbers(rng, [len(c) for c in coords], k.get("style", style)), dims=dims, coords=coords, name=name)
    if kind == "performance":
        return make_(["dataset", "model", "metric"], [datasets, models, metrics], "Model Performance")
    if kind == "treewise":
        ks = sorted(rng.sample(range(1, 60), rng.choice([1, 2, 5, 12])))
        return make_(["dataset", "model", "k", "metric"], [datasets, models, ks, metrics], "Tree-Wise Performance")
    if kind == "contribution":
        return make_(["dataset", "model", "trees"], [datasets, models, np.arange(rng.choice([1, 2, 9]))], "Tree-Wise Average Contribution")
    bins = np.sort(numbers(rng, [rng.choice([2, 4, 9])], "neg"))
    if kind == "querywise":
        return make_(["dataset", "model", "metric", "bin"], [datasets, models, metrics, bins], "Query-Wise Performance", style=rng.choice(["unit", "zero", "nan"]))
    labels = np.array(sorted(rng.sample(range(0, 6), rng.choice([1, 2, 3, 5]))), dtype=np.float32)
    if kind == "graded":
        return make_(["dataset", "model", "label", "bin"], [datasets, models, labels, bins], "Document Graded Relevance", style=rng.choice(["unit", "zero", "nan"]))
    if kind == "confusion":
        n = len(labels)
        return xr.DataArray(np.array([rng.choice([0, 0, 1, 2, 3, 7, 40, 40, 90, 1000]) for _ in range(D * M * n * n)]).reshape(D, M, n, n),
                            dims=["dataset", "model", "label_i", "label_j"], coords=[datasets, models, labels, labels], name="Rank Confusion Matrix")
    cl = rng.sample(["easy", "hard", "mid", "long", "short"], rng.choice([1, 2, 3]))
    return make_(["dataset", "model", "metric", "classes"], [datasets, models, metrics, cl], "Query Class Performance")


def name_of(d, v):
    if d == "label":
        return "Label %d" % int(v)
    return str(v)


def plot(ctx, kind, t, models, datasets, metrics):
    """one plot of table t: what was asked and what was drawn"""
    from rankeval.visualization import effectiveness as V
    rng = ctx.rng
    f = dict(performance=V.plot_model_performance, treewise=V.plot_tree_wise_performance, contribution=V.plot_tree_wise_average_contribution,
             querywise=V.plot_query_wise_performance, graded=V.plot_document_graded_relevance, confusion=V.plot_rank_confusion_matrix,
             classes=V.plot_query_class_performance)[kind]
    kw, cmp_, show = {}, "models", False
    if kind in COMPARE:
        cmp_ = rng.choice(COMPARE[kind] * 5 + ["queries"])
        if cmp_ != "models" or rng.random() < 0.5:
            kw["compare"] = cmp_
    if kind in ("performance", "classes") and rng.random() < 0.5:
        show = True
        kw["show_values"] = True
    third = dict(performance="metric", treewise="metric", querywise="metric", classes="metric", graded="label", contribution=None, confusion="label_i")[kind]
    last = dict(performance=None, treewise="k", querywise="bin", classes="classes", graded="bin", contribution="trees", confusion="label_j")[kind]
    names = dict(dataset=[d.name for d in datasets], model=[m.name for m in models], third=[], x=[])
    v = t.transpose(*[d for d in ("dataset", "model", third, last) if d]).values
    if third is None:
        v = v[:, :, None, :]
    if last is None:
        v = v[:, :, :, None]
    names["third"] = [name_of(third, c) for c in t.coords[third].values] if third else []
    if last:
        c = t.coords[last].values
        names["x"] = [str(a) for a in c] if kind == "classes" else [enc(float(a)) for a in c]
    ev = dict(op="plot", kind=kind, compare=cmp_, show=show, dataset=names["dataset"], model=names["model"], third=names["third"], x=names["x"],
              v=[[[[enc(float(z)) for z in r] for r in b] for b in a] for a in v])
    before = t.copy(deep=True)
    ctx.mark({k: ev[k] for k in ("kind", "compare", "show", "dataset", "model", "third", "x", "v")})

    figs = []

    def g():
        out = f(t, **kw)
        figs.extend(out)
        ev["figs"] = []
        for fig in out:
            fig.canvas.draw()
            e = dict(says=whole(fig, dict(dataset=names["dataset"], model=names["model"])))
            if kind == "confusion":
                e["panels"] = [mesh(ax, names) for ax in fig.axes]
            else:
                cm = legends(fig)
                ns = dict(names, x=[])
                e["panels"] = [panel(ax, cm, ns) for ax in fig.axes]
            ev["figs"].append(e)
    ok, r = ctx.call(g)
    ev.update(dict(st="ok") if ok else dict(st="exc", exc=r, msg=str(ctx.last_exc)[:200], figs=[]))
    ev["kept"] = bool(t.identical(before) or t.equals(before))
    return ev, figs


def importance(ctx, *_):
    """most important features"""
    import xarray as xr
    from rankeval.visualization.feature import plot_feature_importance
    rng = ctx.rng
    n = rng.choice([1, 2, 5, 10, 11, 30])
    top = rng.choice([1, 3, 10, None, n, 12])
    by = rng.choice(["gain", "gain", "count", "name" if rng.random() < 0.2 else "count"])
    imp = numbers(rng, [n], rng.choice(["unit", "unit", "neg", "zero", "tiny", "few", "big"]))
    cnt = np.array([rng.choice([0, 1, 2, 7, 300, 65535, 65536, 70001]) for _ in range(n)])
    t = xr.DataArray([imp, cnt.astype(float)], dims=["type", "feature"], coords=[["importance", "count"], np.arange(n, dtype=np.uint16)], name="Feature Importance Analysis")
    fn = ["%s%d" % (rng.choice(["bm25_", "len", "f"]), k) for k in range(n)] if rng.random() < 0.5 else None
    kw = {}
    if top != 10 or rng.random() < 0.5:
        kw["max_features"] = top
    if by != "gain" or rng.random() < 0.5:
        kw["sort_by"] = by
    if fn:
        kw["feature_names"] = fn
    ev = dict(op="importance", by=by, top=n if top is None else top, imp=encs(imp), cnt=encs(cnt), names=fn or [str(k + 1) for k in range(n)])
    ctx.mark(ev)
    before = t.copy(deep=True)
    figs = []

    def g():
        fig = plot_feature_importance(t, **kw)
        figs.append(fig)
        ax1 = [ax for ax in fig.axes if ax.get_ylabel().startswith("Importance")][0]
        ax2 = [ax for ax in fig.axes if ax.get_ylabel().startswith("Usage")][0]
        ticks = [(float(p), s.get_text().strip()) for p, s in zip(ax1.get_xticks(), ax1.get_xticklabels())]
        vis = True
        for key, ax in (("imps", ax1), ("cnts", ax2)):
            bars = [b for c in ax.containers for b in c]
            bars.sort(key=lambda b: b.get_x())
            ev[key] = [[nearest(ticks, b.get_x() + b.get_width() / 2), enc(b.get_height())] for b in bars]
            vis = vis and all(shown(b.get_height(), *ax.get_ylim()) and shown(b.get_x() + b.get_width() / 2, *ax.get_xlim()) for b in bars)
        ev["visible"] = bool(vis)
        cm = legends(fig)
        fig.canvas.draw()
        ev["legend"] = [cm.get(color(ax.containers[0][0]), "?") for ax in (ax1, ax2)]
    ok, r = ctx.call(g)
    ev.update(dict(st="ok") if ok else dict(st="exc", exc=r, msg=str(ctx.last_exc)[:200]))
    ev["kept"] = bool(t.equals(before))
    return ev, figs


def shape_(ctx, *_):
    """the average shape of the trees"""
    from rankeval.analysis.topological import topological_analysis
    from rankeval.visualization.topological import plot_shape
    rng = ctx.rng
    fr = forest(rng, rng.choice([1, 2, 3, 8]), [0, 1, 2, 3, 4, 5, 9], 3, "dyadic", shape_style=rng.choice(["random", "left", "right", "balanced"]))
    m = model(ctx, fr)
    m.name = rng.choice(["model X", "forest_7"])
    top = rng.choice([10, 10, 1, 2, 3, 8])
    kw = {} if top == 10 else dict(max_level=top)
    ev = dict(op="shape", m=flat(m), top=top)
    ctx.mark(ev)
    t = topological_analysis(m)
    figs = []

    def g():
        fig = plot_shape(t, **kw)
        figs.append(fig)
        fig.canvas.draw()
        axes = [p for ax in fig.axes for p in [ax] + list(getattr(ax, "parasites", []))]
        ms = [(ax, c) for ax in axes for c in ax.collections if isinstance(c, QuadMesh)]
        ax, c = max(ms, key=lambda e: e[1].get_coordinates().size if e[0].get_title() != "Frequency" else 0)
        co = c.get_coordinates()
        a = np.ma.filled(np.ma.asarray(c.get_array(), dtype=float).reshape(co.shape[0] - 1, co.shape[1] - 1), np.nan)
        th, r = co[:, 0, 0], co[0, :, 1]
        ev["cells"] = []
        levels = 0
        # bands are separated by circles at 1, 2, ...: level k lies between k and k + 1
        for k in range(0, min(12, int(np.floor(r.max() + 1e-9)))):
            row = [j for j in range(len(r) - 1) if r[j] <= k + 0.25 < r[j + 1]]
            row2 = [j for j in range(len(r) - 1) if r[j] <= k + 0.75 < r[j + 1]]
            if not row or not row2:
                continue
            levels += 1
            for node in range(2 ** k):
                mid = np.pi * (node + 0.5) / 2 ** k
                col = [i for i in range(len(th) - 1) if th[i] <= mid < th[i + 1]]
                v1, v2 = (a[col[0], row[0]], a[col[0], row2[0]]) if col else (np.nan, np.nan)
                if v1 != 0 or v2 != 0:
                    ev["cells"].append([k, str(node), enc(v1) if v1 == v2 else "nan"])
        ev["scale"] = encs(c.get_clim())
        ev["title"] = mentions("\n".join(x.get_title() for x in fig.axes), [m.name]) == [m.name]
        ev["levels"] = levels
        circles = set()
        for l in ax.lines:
            y = np.asarray(l.get_ydata(), dtype=float)
            if len(y) > 2 and np.ptp(y) == 0:
                circles.add(int(round(y[0])) if abs(y[0] - round(y[0])) < 1e-9 else -1)
        ev["circles"] = sorted(circles)
    ok, r = ctx.call(g)
    ev.update(dict(st="ok") if ok else dict(st="exc", exc=r, msg=str(ctx.last_exc)[:200]))
    ev["kept"] = flat(m) == ev["m"]
    return ev, figs


def history(ctx, n, kinds):
    rng = ctx.rng
    plt.close("all")
    models, datasets, metrics = cast(ctx)
    ev, alive = [], []
    if rng.random() < 0.3:
        from rankeval.visualization.effectiveness import init_plot_style
        ok, r = ctx.call(init_plot_style)
        ev.append(dict(op="style", st="ok" if ok else "exc", msg="" if ok else str(ctx.last_exc)[:200], earlier=[]))
    for _ in range(n):
        k = rng.choice(kinds)
        if k == "importance":
            e, figs = importance(ctx)
        elif k == "shape":
            e, figs = shape_(ctx)
        else:
            ok, t = ctx.call(table, ctx, k, models, datasets, metrics)
            if not ok:
                continue                    # a matter of the analysis
            e, figs = plot(ctx, k, t, models, datasets, metrics)
        e["fresh"] = all(all(g is not h for h in alive) for g in figs) and len({id(g) for g in figs}) == len(figs)
        e["earlier"] = [digest(f) for f in alive]
        e["new"] = [digest(f) for f in figs]
        alive += figs
        ev.append(e)
    ctx.emit(dict(ev=ev))
    plt.close("all")


def run(ctx):
    kinds = KINDS + ["importance", "shape"]
    for k in kinds:
        for _ in range(30 if ctx.thorough else 6):
            history(ctx, 1, [k])
    for _ in range(200 if ctx.thorough else 22):
        history(ctx, ctx.rng.choice([2, 3, 4]), kinds)
