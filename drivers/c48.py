"""Every way to write a call, generated from the specification's table of
parameters and documented values, against the call with everything given by
its name."""
import ast, copy, io
from c32 import *          # the reading of figures
from c39 import form


def figure(fig):
    """everything a figure shows, as far as data and texts go"""
    out = []
    for f in (fig if isinstance(fig, (list, tuple)) else [fig]):
        out.append("axes %d" % len(f.axes))
        for ax in f.axes:
            out += [ax.get_title(), ax.get_xlabel(), ax.get_ylabel()]
            out += [t.get_text() for t in ax.texts] + [t.get_text() for t in ax.get_xticklabels()]
            if ax.get_legend() is not None:
                out += [t.get_text() for t in ax.get_legend().get_texts()]
            for n in ax.lines:
                out += [np.asarray(n.get_xdata(), dtype=np.float64), np.asarray(n.get_ydata(), dtype=np.float64)]
            for p in ax.patches:
                if hasattr(p, "get_height"):
                    out.append(np.asarray([p.get_x(), p.get_width(), p.get_height()]))
            for c in ax.collections:
                if c.get_array() is not None:
                    out.append(np.ma.filled(np.ma.asarray(c.get_array(), dtype=np.float64), np.nan).ravel())
    import matplotlib.pyplot as plt
    plt.close("all")
    return out


def kept(m):
    """scores a model has been told to keep"""
    return sum(len(v) for v in vars(m).values() if isinstance(v, dict))


def data_of(d):
    return [d.X, d.y, np.asarray(d.get_qids_dataset()), np.asarray(d.query_offsets), str(d)]


def model_of(m):
    return [m.trees_root, m.trees_nodes_value, m.trees_nodes_feature, m.trees_left_child, m.trees_right_child, m.trees_weight,
            np.asarray([m.base_score or 0.0, m.learning_rate or 0.0]), str(m)]


def text(p):
    with open(p, "rb") as f:
        return f.read().decode("latin-1")


def tree_of(t):
    return [np.asarray(t.height_trees), np.asarray([t.topology_shape[0] if hasattr(t, "topology_shape") else 0])] + \
        [np.asarray(x.todense() if hasattr(x, "todense") else x) for x in (t.topology, t.avg_tree_shape(), t.fullness_per_level())]


class Bench(object):
    """things to call, made anew for every call"""
    def __init__(self, ctx, models, datasets, others):
        from rankeval.metrics import NDCG, Precision, MSE
        self.ctx, self.others = ctx, others
        self.models, self.datasets = copy.deepcopy((models, datasets))
        self.m, self.d = self.models[0], self.datasets[0]
        self.ms = [NDCG(cutoff=3), Precision(cutoff=2)]
        self.pred = self.m.score(self.d)
        self.out = ctx.path("written")

    def file(self, fmt):
        p = self.ctx.path("file.txt")
        if fmt == "rows":
            self.d.dump(p)
        else:
            with open(p, "w") as f:
                f.write(LIGHT if fmt == "LightGBM" else QUICK)
        return p

QUICK = """<ranker><info><trees>2</trees></info><ensemble>
<tree id="1" weight="0.5"><split><feature>1</feature><threshold>0.25</threshold><split pos="left"><output>1.5</output></split>
<split pos="right"><output>-2.0</output></split></split></tree>
<tree id="2" weight="2.0"><split><feature>2</feature><threshold>1.0</threshold><split pos="left"><output>0.5</output></split>
<split pos="right"><output>4.0</output></split></split></tree></ensemble></ranker>"""
LIGHT = """tree
version=v3
num_class=1
num_tree_per_iteration=1
max_feature_idx=1
objective=regression
feature_names=Column_0 Column_1

Tree=0
num_leaves=2
split_feature=0
threshold=0.25
decision_type=2
left_child=-1
right_child=-2
leaf_value=1.5 -2
shrinkage=0.5


Tree=1
num_leaves=2
split_feature=1
threshold=1
decision_type=2
left_child=-1
right_child=-2
leaf_value=0.5 4
shrinkage=0.5


end of trees
"""


def algo(tx, ty, tq, x):
    return np.asarray(x)[:, 0].astype(np.float32) + np.float32(len(tx)) + np.float32(ty.mean())


def operations():
    """name: (the function of a bench, what is given, what is other than documented, what the result says)"""
    from rankeval import metrics as M, analysis as A, visualization as V
    from rankeval.analysis import effectiveness as E, feature as F, statistical as S, topological as T
    from rankeval.visualization import effectiveness as VE, feature as VF, topological as VT
    from rankeval.model import RTEnsemble
    from rankeval.dataset import Dataset
    from rankeval.dataset.svmlight_format import load_svmlight_file, load_svmlight_files, dump_svmlight_file
    from rankeval.metrics.precision_max import PrecisionMax
    from rankeval.scoring import Scorer
    ops = {}
    table = lambda t: [t]
    ops["load"] = (lambda b: RTEnsemble, dict(file_path=lambda b: b.file("LightGBM" if "format" in b.others else "QuickRank")),
                   dict(name=lambda b: "mine", format=lambda b: "LightGBM", base_score=lambda b: 0.75, learning_rate=lambda b: 0.25, n_trees=lambda b: 1), model_of)
    ops["score"] = (lambda b: b.m.score, dict(dataset=lambda b: b.d), dict(detailed=lambda b: True, cache=lambda b: True),
                    lambda r, b: (list(r) if isinstance(r, tuple) else [r]) + ["kept %d" % kept(b.m)])
    ops["save"] = (lambda b: b.m.save, dict(f=lambda b: b.out), dict(format=lambda b: "LightGBM"), lambda r, b: [text(b.out)])
    ops["copy"] = (lambda b: b.m.copy, {}, dict(n_trees=lambda b: 1), model_of)
    ops["leaf"] = (lambda b: b.m.is_leaf_node, dict(index=lambda b: 1), {}, lambda r: [str(bool(r))])
    ops["Scorer"] = (lambda b: Scorer, dict(model=lambda b: b.m, dataset=lambda b: b.d), {}, lambda s: [s.score(False)])
    ops["scored"] = (lambda b: Scorer(b.m, b.d).score, dict(detailed=lambda b: True), {}, lambda r: list(r) if isinstance(r, tuple) else [r])
    ops["Dataset"] = (lambda b: Dataset, dict(X=lambda b: b.d.X, y=lambda b: b.d.y, query_ids=lambda b: ids(b.d)), dict(name=lambda b: "mine"), data_of)
    ops["Dataset_load"] = (lambda b: Dataset.load, dict(f=lambda b: b.file("rows")), dict(name=lambda b: "mine", format=lambda b: "arff"), data_of)
    ops["dump"] = (lambda b: b.d.dump, dict(f=lambda b: b.out), dict(format=lambda b: "arff"), lambda r, b: [text(b.out)])

    def several(b):
        q = np.arange(20) // 2
        return Dataset(np.arange(20, dtype=np.float32).reshape(20, 1), (np.arange(20) * 7 % 5).astype(np.float32), q.astype(np.int32))
    ops["split"] = (lambda b: several(b).split, dict(train_size=lambda b: 0.5), dict(vali_size=lambda b: 0.2, random_state=lambda b: 77),
                    lambda r: [x for d in r if d is not None for x in data_of(d)])
    ops["subset"] = (lambda b: b.d.subset, dict(query_ids=lambda b: np.asarray(b.d.get_qids_dataset())[:1]), dict(name=lambda b: "mine"), data_of)
    ops["subset_features"] = (lambda b: b.d.subset_features, dict(features=lambda b: [0]), {}, data_of)
    ops["qids"] = (lambda b: b.d.get_qids_dataset, {}, dict(dtype=lambda b: np.int64), lambda r: [np.asarray(r), str(np.asarray(r).dtype)])
    ops["offsets"] = (lambda b: b.d.get_query_offsets, dict(query_id=lambda b: np.asarray(b.d.get_qids_dataset())[0]), {}, lambda r: [np.asarray(r)])
    ops["kfold"] = (lambda b: several(b).kfold, {}, dict(n_folds=lambda b: 2, qids_only=lambda b: True, shuffle=lambda b: False),
                    lambda r: [y for f in r for x in f for y in (data_of(x) if hasattr(x, "n_queries") else [np.asarray(x)])])
    ops["load_file"] = (lambda b: load_svmlight_file, dict(f=lambda b: b.file("rows")), dict(query_id=lambda b: True), lambda r: list(r))
    ops["load_files"] = (lambda b: load_svmlight_files, dict(files=lambda b: [b.file("rows")]), dict(query_id=lambda b: True), lambda r: list(r))
    ops["dump_file"] = (lambda b: dump_svmlight_file, dict(X=lambda b: b.d.X, y=lambda b: b.d.y, f=lambda b: b.out),
                        dict(query_id=lambda b: ids(b.d), zero_based=lambda b: True), lambda r, b: [text(b.out)])
    worth = dict(name=lambda b: "mine", cutoff=lambda b: 2, threshold=lambda b: 2, no_relevant_results=lambda b: 0.25, p_abandonment=lambda b: 0.4, p=lambda b: 0.8)
    for n in ("Precision", "Recall", "MRR", "MAP", "DCG", "NDCG", "ERR", "RBP", "Pfound", "MSE", "RMSE", "Kendalltau", "SpearmanRho", "PrecisionMax"):
        ops[n] = (lambda b, n=n: PrecisionMax if n == "PrecisionMax" else getattr(M, n), {},
                  dict(worth, implementation=lambda b, n=n: "flat" if n == "NDCG" else "exp"),
                  lambda r, b: [str(r)] + [np.asarray(x) for x in r.eval(b.d, b.pred)])
    ops["eval"] = (lambda b: b.ms[0].eval, dict(dataset=lambda b: b.d, y_pred=lambda b: b.pred), {}, lambda r: [np.asarray(r[0]), r[1]])
    ops["eval_per_query"] = (lambda b: b.ms[0].eval_per_query, dict(y=lambda b: b.d.y[:b.d.query_offsets[1]], y_pred=lambda b: b.pred[:b.d.query_offsets[1]]), {},
                             lambda r: [np.asarray(r)])
    # analyses
    common = dict(datasets=lambda b: b.datasets, models=lambda b: b.models, metrics=lambda b: b.ms, model=lambda b: b.m, dataset=lambda b: b.d,
                  query_classes=lambda b: [[k % 2 for k in range(d.n_queries)] for d in b.datasets], model_a=lambda b: b.models[0], model_b=lambda b: b.models[-1],
                  algos=lambda b: [algo])
    other = dict(cache=lambda b: True, step=lambda b: 1, bins=lambda b: 4, start=lambda b: -500, end=lambda b: 900, skip_same_label=lambda b: True,
                 normalize=lambda b: False, metric=lambda b: M.NDCG(), n_perm=lambda b: 60, L=lambda b: 3, k=lambda b: 3, include_leaves=lambda b: False)
    cached = lambda r, b: [r, "kept %s" % [kept(m) for m in b.models]]
    for mod, names in ((E, ("model_performance", "tree_wise_performance", "tree_wise_average_contribution", "query_wise_performance", "query_class_performance",
                            "document_graded_relevance", "rank_confusion_matrix")), (S, ("statistical_significance",))):
        for n in names:
            ops[n] = (lambda b, f=getattr(mod, n): f, common, other, cached)
    ops["bias_variance"] = (lambda b: S.bias_variance, dict(common, datasets=lambda b: [several(b)]), other, table)
    ops["feature_importance"] = (lambda b: F.feature_importance, common, other, table)
    ops["topological_analysis"] = (lambda b: T.topological_analysis, common, other, tree_of)

    # pictures
    def performance(f, *a, **kw):
        def g(b):
            return f(*[common[x](b) for x in a], **kw)
        return g
    drawn = dict(compare=lambda b: "metrics", show_values=lambda b: True, max_features=lambda b: 1, sort_by=lambda b: "count", feature_names=lambda b: ["one", "two", "three"],
                 max_level=lambda b: 1)
    for n, make in (("plot_model_performance", performance(E.model_performance, "datasets", "models", "metrics")),
                    ("plot_query_class_performance", performance(E.query_class_performance, "datasets", "models", "metrics", "query_classes")),
                    ("plot_query_wise_performance", performance(E.query_wise_performance, "datasets", "models", "metrics", bins=5)),
                    ("plot_tree_wise_performance", performance(E.tree_wise_performance, "datasets", "models", "metrics", step=1)),
                    ("plot_tree_wise_average_contribution", performance(E.tree_wise_average_contribution, "datasets", "models")),
                    ("plot_document_graded_relevance", performance(E.document_graded_relevance, "datasets", "models", bins=5)),
                    ("plot_rank_confusion_matrix", performance(E.rank_confusion_matrix, "datasets", "models"))):
        ops[n] = (lambda b, n=n: getattr(VE, n), dict(performance=make), drawn, figure)
    ops["plot_feature_importance"] = (lambda b: VF.plot_feature_importance, dict(feature_perf=performance(F.feature_importance, "model", "dataset")), drawn, figure)
    ops["plot_shape"] = (lambda b: VT.plot_shape, dict(topological=lambda b: T.topological_analysis(b.m)), drawn, figure)
    ops["export_graphviz"] = (lambda b: VT.export_graphviz, dict(ensemble=lambda b: b.m),
                              dict(tree_id=lambda b: 1, out_file=lambda b: b.out, max_depth=lambda b: 1, output_leaves=lambda b: b.m.score(b.d, True)[2],
                                   label=lambda b: "leaves", label_show=lambda b: True, feature_names=lambda b: ["one", "two", "three"], highlight_leaves=lambda b: True,
                                   leaves_parallel=lambda b: True, node_ids=lambda b: True, rounded=lambda b: True, proportion=lambda b: True,
                                   special_characters=lambda b: True, precision=lambda b: 1),
                              lambda r, b: [r if isinstance(r, str) else "no text", text(b.out) if os.path.exists(b.out) else ""])
    return ops


def ids(d):
    return np.asarray(d.get_qids_dataset()).astype(np.int32)


def plain(v):
    """the same value as another type that stands for it"""
    if isinstance(v, bool):
        return np.bool_(v)
    if isinstance(v, int):
        return np.int64(v)
    if isinstance(v, float):
        return np.float64(v)
    return v


def run(ctx):
    rng = ctx.rng
    ops = operations()
    cases = {}
    for c in ctx.cases[0]:
        cases.setdefault(c["f"], []).append(c)
    slow = {"statistical_significance": 3, "bias_variance": 12}
    for name in sorted(cases):
        get, given, other, says = ops[name]
        many = cases[name]
        cheap = [c for c in many if name != "statistical_significance" or any(p["n"] == "n_perm" and p["v"] == "other" for p in c["all"])]
        n = (12 if name.startswith("plot") else 200) * (4 if ctx.thorough else 1)
        chosen = rng.sample(cheap, min(len(cheap), n))
        if len(cheap) < len(many):
            chosen += rng.sample([c for c in many if c not in cheap], 2)
        rec = dict(ev=[], f=name)
        for c in chosen:
            if len(rec["ev"]) % 25 == 0:
                _, models, datasets = setup(ctx, nmodels=2, ndata=2, trees=rng.choice([2, 3]), splits_=(3, 7), whole=True)
                known = {}
            others = sorted(p["n"] for p in c["all"] if p["v"] == "other")
            typed = rng.random() < 0.2
            ctx.mark(dict(case=c, typed=typed))

            def call(c, typed):
                b = Bench(ctx, models, datasets, others)
                if os.path.exists(b.out):
                    os.remove(b.out)
                np.random.seed(5)

                def value(p):
                    v = given[p["n"]](b) if p["v"] == "given" else other[p["n"]](b) if p["v"] == "other" else ast.literal_eval(p["v"])
                    return plain(v) if typed else v

                def f():
                    f, a, kw = get(b), [value(p) for p in c["pos"]], {p["n"]: value(p) for p in c["kw"]}
                    np.random.seed(5)
                    r = f(*a, **kw)
                    r = says(r, b) if says.__code__.co_argcount == 2 else says(r)
                    return [form(x) for x in r]
                ok, v = ctx.call(f)
                return dict(st="ok", says=v) if ok else dict(st="exc", says=[], exc=v + ": " + str(ctx.last_exc)[:200])
            key = tuple(others)
            if key not in known:
                known[key] = call(dict(pos=[], kw=c["all"]), False)
            rec["ev"].append(dict(op="call", f=name, others=others, pos=[p["n"] for p in c["pos"]], kw=[p["n"] for p in c["kw"]], typed=typed,
                                  got=call(c, typed), want=known[key]))
        ctx.emit(rec)
