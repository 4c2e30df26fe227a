from scorecommon import *


def read(m, lr_base=True):
    a = flat(m)
    b = m.base_score
    return dict(a, lr=enc(m.learning_rate), base="none" if b is None else enc(b))


def hist(ctx, nt, steps, shapes=None):
    rng = ctx.rng
    nf = rng.choice([1, 2, 3, 6])
    fmt = rng.choice(FMTS)
    lo = 1 if fmt == "Jforests" else 0
    fr = forest(rng, nt, [lo, 1, 2, 5], nf, "dyadic", unique=True, weights=("1", "0.5", "2", "-0.25", "0.0"), shapes=shapes)
    if shapes and fmt == "Jforests" and None in shapes:
        fmt = "QuickRank"
    kw = {}
    if rng.random() < 0.6:
        kw["base_score"] = rng.choice([0, 1.5, -2])
    if rng.random() < 0.6:
        kw["learning_rate"] = rng.choice([1, 0.5, 2])
    p = ctx.path("k.model")
    m = model(ctx, fr, fmt, **kw)
    # the file is kept for loading with a limit
    src = {"QuickRank": quickrank, "XGBoost": xgboost, "ScikitLearn": scikit}.get(fmt)
    if src:
        src(fr, p)
    X = np.array(probe_rows(rng, fr, nf, 5))
    d = dataset(X)
    pool = [m]
    ctx.mark(dict(fmt=fmt, forest=fr))
    rec = dict(fmt=fmt, m=read(m), X=encm(X), ev=[])
    full = rec["m"]
    for _ in range(steps):
        r = rng.random()
        k = rng.randrange(len(pool))
        s = pool[k]
        e = dict(src=k + 1, st="ok")
        if r < 0.45 and len(pool) < 7:
            n = rng.choice([-1] + list(range(1, s.n_trees + 1)) + [s.n_trees, s.n_trees + 1, s.n_trees + 5])
            ok, v = ctx.call(s.copy, None) if n < 0 else ctx.call(s.copy, n) if rng.random() < 0.5 else ctx.call(s.copy, n_trees=n)
            e.update(op="copy", n=n)
            if ok:
                pool.append(v)
            else:
                e["st"] = "exc"
        elif r < 0.55 and src and len(pool) < 7:
            n = rng.choice([-1] + list(range(1, nt + 3)))
            ok, v = ctx.call(load, p, fmt, n_trees=None if n < 0 else n, **kw)
            e.update(op="load", n=n)
            if ok:
                pool.append(v)
            else:
                e["st"] = "exc"
        elif r < 0.6:
            ctx.call(s.score, d, cache=True)     # leaves something in the cache; answers are read uncached below
            s.clear_cache()
            continue
        else:
            what = rng.choice(["w", "w", "v", "f", "lr", "base"])
            e.update(op="write", what=what)
            if what == "w":
                j = rng.randrange(s.n_trees)
                x = np.float32(rng.choice([1, 2, 0.5, -1, 0.25]))
                s.trees_weight[j] = x
                e.update(k=j + 1, x=enc(x))
            elif what == "v":
                j = rng.randrange(s.n_nodes)
                x = np.float32(rng.randrange(-40, 40) / 8.0)
                s.trees_nodes_value[j] = x
                e.update(k=j + 1, x=enc(x))
            elif what == "f":
                sp = [j for j in range(s.n_nodes) if s.trees_left_child[j] != -1]
                if not sp:
                    continue
                j = rng.choice(sp)
                i = rng.randrange(nf)
                s.trees_nodes_feature[j] = i
                e.update(k=j + 1, i=i)
            elif what == "lr":
                x = rng.choice([1, 0.5, 2])
                s.learning_rate = x
                e.update(x=enc(x))
            else:
                x = rng.choice([0, 0.5, 3])
                s.base_score = x
                e.update(x=enc(x))
        if e["st"] == "ok":
            def look():
                return [dict(m=read(z), n_trees=int(z.n_trees), n_nodes=int(z.n_nodes), y=encs(z.score(d))) for z in pool]
            ok, v = ctx.call(look)
            if ok:
                e["pool"] = v
            else:
                e.update(st="exc", exc=v)
        rec["ev"].append(e)
        if e["st"] != "ok":
            break
    ctx.emit(rec)


def run(ctx):
    from loaders import shape
    rng = ctx.rng
    for k, c in enumerate(ctx.cases[0]):
        if k % 3 == 0 or ctx.thorough:
            sh = [shape(s) for s in c["shapes"]]
            hist(ctx, len(sh), 4, shapes=sh)
    for _ in range(900 if ctx.thorough else 150):
        hist(ctx, rng.choice([1, 2, 3, 5, 8]), rng.choice([3, 6, 9]))
    for _ in range(3):
        hist(ctx, 70, 5)
