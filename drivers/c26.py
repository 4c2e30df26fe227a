from scorecommon import *


def ask(rng, m, leaves):
    from rankeval.analysis.topological import topological_analysis
    t = topological_analysis(m, include_leaves=leaves) if leaves is not True else topological_analysis(m)
    g = lambda a: [int(v) for v in a]

    def cells(s, f):
        s = s.tocoo()
        s.sum_duplicates()
        return [[int(r), enc(int(c)), f(v)] for r, c, v in zip(s.row, s.col, s.data) if v != 0]
    whole = lambda v: int(v) if float(v) == int(v) else -1
    d = t.describe_tree_height()
    first = cells(t.topology, whole), cells(t.avg_tree_shape(), enc)
    full = encs(t.fullness_per_level())
    return dict(st="ok", full=full, num_leaves=g(m.num_leaves()), num_nodes=g(m.num_nodes()), heights=g(m.height_trees()),
                max_leaves=int(m.max_leaves()), theights=g(t.height_trees), cells=cells(t.topology, whole),
                shape=cells(t.avg_tree_shape(), enc), again=(cells(t.topology, whole), cells(t.avg_tree_shape(), enc)) == first,
                desc=dict(nobs=int(d.nobs), min=int(d.minmax[0]), max=int(d.minmax[1]), mean=enc(d.mean), var=enc(d.variance)))


def one(ctx, m, limit=None):
    rng = ctx.rng
    whole = m
    if limit is not None:
        ok, m = ctx.call(m.copy, limit)
        if not ok:
            return
    for leaves in (True, False) if rng.random() < 0.4 else (True,):
        if not leaves and all(m.trees_left_child == -1):
            continue
        rec = dict(m=flat(whole), limit=-1 if limit is None else limit, leaves=leaves)
        ctx.mark(rec)
        ok, v = ctx.call(ask, rng, m, leaves)
        rec["out"] = v if ok else dict(st="exc", exc=v, msg=str(ctx.last_exc)[:200])
        ctx.emit(rec)


def run(ctx):
    from loaders import shape
    rng = ctx.rng
    for k, c in enumerate(ctx.cases[0]):
        sh = [shape(s) for s in c["shapes"]]
        fr = forest(rng, len(sh), 0, 2, "dyadic", shapes=sh)
        fmt = FMTS[k % 6]
        if fmt == "Jforests" and None in sh:
            fmt = "LightGBM"
        one(ctx, model(ctx, fr, fmt))
    for _ in range(500 if ctx.thorough else 90):
        nt = rng.choice([1, 2, 3, 6, 12])
        fmt = rng.choice(FMTS)
        lo = 1 if fmt == "Jforests" else 0
        fr = forest(rng, nt, list(range(lo, 12)), 3, "dyadic", shape_style=rng.choice(["random", "left", "right", "balanced", "zigzag"]))
        m = model(ctx, fr, fmt)
        one(ctx, m)
        if rng.random() < 0.5:
            one(ctx, m, rng.randrange(1, nt + 1))
            one(ctx, m)
    for nt, ns, style in [(2, 62, "left"), (2, 62, "right"), (3, 60, "zigzag"), (2, 127, "balanced"), (70, [0, 1, 3, 9], "random"),
                          (300, [0, 1, 2], "random"), (1, 400, "random")]:
        m = model(ctx, forest(rng, nt, ns, 3, "dyadic", shape_style=style), rng.choice(["QuickRank", "LightGBM" if ns != 62 else "XGBoost"]))
        one(ctx, m)
