import struct
from scorecommon import *


def one(ctx, m, X, fmt="QuickRank", path=None):
    path = path or ctx.path("saved.xml")
    if fmt != "QuickRank" and os.path.exists(path):
        os.unlink(path)
    before = (flat(m), m.n_trees, m.learning_rate, m.base_score)
    rec = dict(fmt=fmt, m=before[0], X=encm(X))
    ctx.mark(rec)

    def f():
        status = m.save(path, format=fmt) if fmt != "QuickRank" or ctx.rng.random() < 0.5 else m.save(path)
        out = dict(st="ok", status=bool(status), file=os.path.exists(path))
        if fmt != "QuickRank":
            return out
        b = load(path)
        y, p, l = b.score(dataset(X), detailed=True)
        out.update(m=flat(b), n_trees=int(b.n_trees), reach=[[enc(b.trees_nodes_value[n]) for n in row] for row in l])
        return out
    ok, v = ctx.call(f)
    rec["out"] = v if ok else dict(st="exc", exc=v, msg=str(ctx.last_exc)[:200], file=os.path.exists(path))
    rec["after"] = (flat(m), m.n_trees, m.learning_rate, m.base_score) == before
    ctx.emit(rec)


def bits(rng, n):
    """random finite binary32 values"""
    out = []
    while len(out) < n:
        v = struct.unpack("<f", struct.pack("<I", rng.getrandbits(32)))[0]
        if v == v and abs(v) != float("inf"):
            out.append(np.float32(v))
    return out


def run(ctx):
    from loaders import shape
    rng = ctx.rng
    for k, c in enumerate(ctx.cases[0]):
        sh = [shape(s) for s in c["shapes"]]
        fr = forest(rng, len(sh), 0, 3, "double", shapes=sh, unique=True)
        fmt = FMTS[k % 6]
        if fmt == "Jforests" and None in sh:
            fmt = "CatBoost"
        one(ctx, model(ctx, fr, fmt), probe_rows(rng, fr, 3, 4))
    for k in range(900 if ctx.thorough else 150):
        nt = rng.choice([1, 2, 4, 9])
        nf = rng.choice([1, 3, 12])
        fmt = rng.choice(FMTS)
        fr = forest(rng, nt, [j for j in range(10) if j or fmt != "Jforests"], nf, rng.choice(["double", "short", "big", "tiny"]),
                    rng.choice(["double", "short", "tiny"]), weights=("0.1", "1", "-2.5", "1e-7", "0.30000001", "0.0", "1e30"),
                    shape_style=rng.choice(["random", "left", "right", "balanced", "zigzag"]))
        kw = {}
        if rng.random() < 0.4:
            kw = dict(learning_rate=rng.choice([0.1, 0.05, 2]), base_score=rng.choice([0, 0.3, 1]))
        m = model(ctx, fr, fmt, **kw)
        if rng.random() < 0.4:      # any values
            v = np.array(bits(rng, m.n_nodes), dtype=np.float32)
            m.trees_nodes_value[:] = v
            if rng.random() < 0.5:
                m.trees_weight[:] = np.array(bits(rng, nt), dtype=np.float32)
        if rng.random() < 0.4:
            ok, t = ctx.call(m.copy, rng.randrange(1, nt + 1))
            m = t if ok else m
        X = np.array(probe_rows(rng, fr, nf, 4))
        for i in range(4):
            if rng.random() < 0.5:
                s = [j for j in range(m.n_nodes) if m.trees_left_child[j] != -1]
                if s:
                    j = rng.choice(s)
                    X[i, m.trees_nodes_feature[j]] = m.trees_nodes_value[j]
        one(ctx, m, X)
        if k % 10 == 0:
            for bad in ("LightGBM", "XGBoost", "ScikitLearn", "CatBoost", "Jforests", "Nothing"):
                one(ctx, m, X, bad, ctx.path("wrong.txt"))
        if k % 25 == 1:             # saving what was loaded from a saved file
            m.save(ctx.path("a.xml"))
            one(ctx, load(ctx.path("a.xml")), X, path=ctx.path("a.xml"))
    for style, ns, nt in (("left", 60, 2), ("right", 60, 2), ("balanced", 255, 3), ("random", [0, 1, 9], 120)):
        fr = forest(rng, nt, ns, 300, "double", shape_style=style)
        one(ctx, model(ctx, fr), probe_rows(rng, fr, 300, 3))
    fr = forest(rng, 1, 1, 1, "double")
    fr[0]["root"]["f"] = 32767
    X = np.zeros((2, 32768), dtype=np.float32)
    one(ctx, model(ctx, fr), X)
    fr[0]["root"]["f"] = 255
    one(ctx, model(ctx, fr), X[:, :256])
