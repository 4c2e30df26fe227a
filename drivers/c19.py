from metriccommon import *


def hist(ctx, name, steps, data=None):
    rng = ctx.rng
    if data is None:
        data = [[query(rng) for _ in range(rng.choice([1, 2, 3, 6]))] for _ in range(rng.choice([1, 2, 3]))]
        if rng.random() < 0.5:      # the same queries in another order, and with another label
            data.append(data[0][::-1])
        if rng.random() < 0.5:
            q = dict(data[0][0], y=[(v + 1) % 5 for v in data[0][0]["y"]])
            data.append([q] + data[0][1:])
    p = params(rng, [q for d in data for q in d])
    ids = [random_ids(rng, len(d)) for d in data]
    if len(data) > 1 and rng.random() < 0.6:        # datasets alike in shape and ids
        for k in range(1, len(data)):
            if len(data[k]) == len(data[0]):
                ids[k] = ids[0]
    ds = [build(d, i)[0] for d, i in zip(data, ids)]
    # one or more metrics, some alike but for a parameter
    ms = [dict(name=name, p=p)]
    while rng.random() < 0.4 and len(ms) < 4:
        ms.append(dict(name=rng.choice([name, name, "DCG", "NDCG"]), p=params(rng, [q for d in data for q in d])))
    rec = dict(metrics=ms, data=[[encs(q["y"]) for q in d] for d in data], ev=[])
    ctx.mark(rec)
    made = [metric(m["name"], m["p"]) for m in ms]
    for _ in range(steps):
        j = rng.randrange(len(ms))
        m = made[j]
        k = rng.randrange(len(ds))
        r = rng.random()
        if r < 0.55:
            perfect = rng.random() < 0.3
            s = []
            for q in data[k]:
                n = len(q["y"])
                s.append([float(v) + x * 2.0 ** -10 for x, v in enumerate(q["y"])] if perfect else
                         q["s"] if rng.random() < 0.3 else scores(rng, n))
            flat = np.array([v for x in s for v in x], dtype=rng.choice([np.float32, np.float64]))
            d = ds[k] if rng.random() < 0.7 else build(data[k], ids[k])[0]
            ok, v = ctx.call(m.eval, d, flat)
            e = dict(op="eval", m=j + 1, ds=k + 1, s=[encs(x) for x in s], st="ok" if ok else "exc")
            if ok:
                e.update(det=encs(v[1]), mean=enc(v[0]))
        elif r < 0.93:
            i = rng.randrange(len(data[k]))
            q = data[k][i]
            s = scores(rng, len(q["y"]))
            ok, v = ctx.call(m.eval_per_query, np.array(q["y"], dtype=np.float32), np.array(s, dtype=np.float32))
            e = dict(op="query", m=j + 1, ds=k + 1, k=i + 1, s=encs(s), st="ok" if ok else "exc")
            if ok:
                e["val"] = enc(v)
        else:
            ctx.call(m.eval, ds[k], None if rng.random() < 0.5 else np.zeros((1, 1, 1)))
            e = dict(op="misfit", ds=k + 1)
        rec["ev"].append(e)
        if e.get("st") == "exc":
            break
    ctx.emit(rec)


def run(ctx):
    rng = ctx.rng
    cases = [dict(y=[int(v) for v in c["y"]], s=[float(v) for v in c["s"]]) for c in ctx.cases[0]]
    rng.shuffle(cases)
    for name in ("DCG", "NDCG"):
        for k in range(0, len(cases), 5):
            hist(ctx, name, 3, [cases[k:k + 5]])
    for k in range(1500 if ctx.thorough else 170):
        hist(ctx, "NDCG" if k % 4 else "DCG", rng.choice([2, 4, 8]))
    for name in ("DCG", "NDCG"):
        hist(ctx, name, 4, [[query(rng, 200), query(rng, 1)], [query(rng, 4) for _ in range(80)]])
