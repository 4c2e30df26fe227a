from datacommon import *


def hist(ctx, ids, sizes, nf, steps):
    from rankeval.dataset import Dataset
    rng = ctx.rng
    X, y, q = make(rng, ids, sizes, nf)
    rec = dict(ds=content(X, y, q), ev=[])
    pool, writable, depth = [Dataset(X, y, q)], [], [0]
    parents = set()

    def observe(e, ok, v):
        if ok:
            e["st"], e["pool"], e["ids"] = "ok", [read(d) for d in pool], [ints(d.query_ids) for d in pool]
        else:
            e["st"], e["exc"], e["pool"], e["ids"] = "exc", v, [], []
        rec["ev"].append(e)
        return ok

    for _ in range(steps):
        r = rng.random()
        src = rng.randrange(len(pool))
        leafs = [k for k in writable if k not in parents and pool[k].n_instances]
        if r < 0.2 and leafs:
            src = rng.choice(leafs)
            d = pool[src]
            row, c, v = rng.randrange(d.n_instances), rng.randrange(d.n_features), rng.randrange(500, 900)
            d.X[row, c] = v
            if not observe(dict(op="write", src=src + 1, r=row + 1, c=c + 1, v=v), True, None):
                break
            continue
        d = pool[src]
        parents.add(src)
        if r < 0.6:
            have = [int(v) for v in d.query_ids]
            arg = [i for i in have if rng.random() < rng.choice([0.3, 0.7, 1.0])]
            arg += rng.sample(range(10 ** 6, 10 ** 6 + 50), rng.randrange(0, 3)) if rng.random() < 0.5 else []
            if rng.random() < 0.3:
                arg += rng.sample(ids, 1)
            rng.shuffle(arg)
            given = np.array(arg, dtype=np.int64 if max(arg, default=0) >= FAR else rng.choice([np.int32, np.int64])) if rng.random() < 0.7 else list(arg)
            ok, v = ctx.call(d.subset, given)
            e = dict(op="subset", src=src + 1, arg=ints(arg))
        else:
            arg = [rng.randrange(d.n_features) for _ in range(rng.randrange(1, 6))]
            if rng.random() < 0.5:
                arg = rng.sample(range(d.n_features), rng.randrange(1, d.n_features + 1))
            if rng.random() < 0.3:
                arg = list(range(d.n_features))
            if rng.random() < 0.2:
                a = rng.randrange(d.n_features)
                arg = list(range(a, d.n_features))
            given = np.array(arg) if rng.random() < 0.5 else list(arg)
            ok, v = ctx.call(d.subset_features, given)
            e = dict(op="features", src=src + 1, arg=arg)
        if ok:
            pool.append(v)
            if e["op"] == "features":
                writable.append(len(pool) - 1)
        if not observe(e, ok, v):
            break
    ctx.emit(rec)


def run(ctx):
    rng = ctx.rng
    for c in ctx.cases[0]:
        if c["kind"] == "layout":
            hist(ctx, c["ids"], c["sizes"], 3, 5)
    for _ in range(600 if ctx.thorough else 100):
        n = rng.choice([1, 2, 4, 8, 15])
        hist(ctx, random_ids(rng, n, True), random_sizes(rng, n), rng.randrange(1, 6), rng.randrange(2, 9))
    hist(ctx, random_ids(rng, 60), random_sizes(rng, 60), 30, 4)
