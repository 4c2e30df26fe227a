from scorecommon import *


def hist(ctx, steps, n_trees=None, script=None):
    from rankeval.dataset import Dataset
    rng = ctx.rng
    nf = rng.choice([1, 2, 3])
    while True:
        m, fr, base, lr, fmt = random_model(ctx, True, nf, n=n_trees or rng.choice([1, 2, 3, 5]), splits_=[0, 1, 2, 3])
        if all(v != 0 for v in m.trees_nodes_value[m.trees_left_child == -1]) and all(w != 0 for w in m.trees_weight):
            break
    need = max_feature(fr) + 1
    # contents, and objects having them
    con, rows, objs, bad = [], [], [], []
    for _ in range(rng.choice([1, 2, 3])):
        n = rng.choice([1, 2, 4])
        X = np.array(probe_rows(rng, fr, nf, n))
        rows.append(X)
    if rng.random() < 0.3:     # contents that differ in one cell only
        X = rows[0].copy()
        X[rng.randrange(X.shape[0]), rng.randrange(nf)] += np.float32(rng.choice([1, -30, 30]))
        rows.append(X)
    if rng.random() < 0.3:
        rows.append(np.concatenate([rows[0], rows[0][:1]]))
    uniq = []
    for X in rows:
        if not any(np.array_equal(X, u) for u in uniq):
            uniq.append(X)
    rows = uniq
    for c, X in enumerate(rows):
        n = X.shape[0]
        y = np.array([rng.randrange(3) for _ in range(n)], dtype=np.float32)
        for k in range(rng.choice([1, 1, 2, 3])):
            q = np.ones(n, dtype=np.int32)
            yy = y
            if k == 2:
                q = np.arange(1, n + 1, dtype=np.int32)
            if rng.random() < 0.2:
                yy = y[::-1].copy()
            objs.append(Dataset(layout(rng, X.copy()), yy.copy(), q))
            con.append(c + 1)
            bad.append(False)
    if rng.random() < 0.4:     # a dataset that cannot be scored
        X = rows[0]
        objs.append(Dataset(X.astype(np.float64), np.zeros(len(X), dtype=np.float32), np.ones(len(X), dtype=np.int32)))
        con.append(1)
        bad.append(True)
    pool = [m]
    rec = dict(m=dict(flat(m), lr=enc(lr), base=enc(base)), con=con, bad=bad, rows=[encm(X) for X in rows], ev=[])
    for s in range(steps):
        r = rng.random()
        src = rng.randrange(len(pool))
        if script and s < len(script):
            r, src = script[s], 0
        mm = pool[src]
        if r < 0.68:
            o = rng.randrange(len(objs)) if rng.random() < 0.5 or not rec["ev"] else rec.setdefault("_last", 0)
            rec["_last"] = o
            det, cache = rng.random() < 0.5, rng.random() < 0.6
            kw = {}
            if det or rng.random() < 0.5:
                kw["detailed"] = det
            if cache or rng.random() < 0.5:
                kw["cache"] = cache
            ok, v = ctx.call(mm.score, objs[o], **kw)
            e = dict(op="score", src=src + 1, obj=o + 1, det=det, cache=cache)
            out = dict(st="exc", exc=v if not ok else "")
            if ok:
                try:
                    if det:
                        y, p, l = v
                        out = dict(st="ok", y=encs(y), part=encm(p), leaves=[[int(q) for q in z] for z in l])
                    else:
                        out = dict(st="ok", y=encs(v))
                except Exception as x:
                    out = dict(st="exc", exc="unusable result %s" % type(x).__name__)
            e["out"] = out
        elif r < 0.74:
            mm.clear_cache()
            e = dict(op="clear", src=src + 1)
        elif r < 0.92:
            k = 0 if rng.random() < 0.7 else rng.randrange(mm.n_trees)
            w = mm.trees_weight[k] * np.float32(rng.choice([2, -1, 4]))
            if abs(w) > 256:
                w = np.float32(1)
            mm.trees_weight[k] = w
            e = dict(op="weight", src=src + 1, k=k + 1, w=enc(w))
        elif len(pool) < 4:
            n = rng.choice([-1, 1, mm.n_trees, mm.n_trees + 1, max(1, mm.n_trees - 1)])
            ok, v = ctx.call(mm.copy) if n < 0 else ctx.call(mm.copy, n)
            e = dict(op="copy", src=src + 1, n=n, st="ok" if ok else "exc")
            if ok:
                pool.append(v)
        else:
            continue
        rec["ev"].append(e)
        if e.get("st") == "exc":
            break
    rec.pop("_last", None)
    ctx.emit(rec)


def run(ctx):
    rng = ctx.rng
    for k in range(4000 if ctx.thorough else 500):
        hist(ctx, rng.choice([4, 6, 10, 16]))
