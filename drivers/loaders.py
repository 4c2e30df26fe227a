"""Common part of the loader drivers: load a file, read the model back, and
send rows around the thresholds through it."""
import os
from forest import *


def shape(c):
    return None if "o" in c else (shape(c["l"]), shape(c["r"]))


def observe(ctx, rec, fr, path, fmt, nf, limit=-1, nrows=6, **kw):
    rng = ctx.rng
    X = probe_rows(rng, fr, nf, nrows if nf < 1000 else 2)

    def f():
        if limit >= 0:
            kw["n_trees"] = limit
        m = load(path, fmt, **kw)
        a = arrays(m)
        y, part, leaves = m.score(dataset(X), detailed=True)
        v = m.trees_nodes_value
        return dict(st="ok", m=a, reach=[[enc(v[n]) if 0 <= n < len(v) else "out of range" for n in row] for row in leaves],
                    base="none" if m.base_score is None else enc(m.base_score), lr=enc(m.learning_rate))
    ctx.mark(dict(fmt=fmt, file=open(path, "rb").read()[:8000].decode("latin1")))
    ok, v = ctx.call(f)
    rec.update(fmt=fmt, limit=limit, X=encm(X), out=v if ok else dict(st="exc", exc=v))
    ctx.emit(rec)
    os.unlink(path)


def forests(ctx, light, single_ok=True, n_random=60, big=True):
    """(forest, number of features): every small shape, and random ones"""
    rng = ctx.rng
    styles = ["dyadic", "double", "short", "int"]
    k = 0
    for c in ctx.cases[0]:
        sh = [shape(s) for s in c["shapes"]]
        if not single_ok and None in sh:
            continue
        k += 1
        yield forest(rng, len(sh), 0, 1 + k % 3, styles[k % 4], "dyadic", shapes=sh, unique=True), 1 + k % 3
    for _ in range(n_random * (6 if ctx.thorough else 1)):
        nf = rng.choice([1, 2, 5, 20])
        n = rng.choice([1, 2, 3, 5, 9])
        st = rng.choice(styles + ["big", "tiny"])
        yield forest(rng, n, [k for k in range(0 if single_ok else 1, 9)], nf, st, "dyadic", unique=rng.random() < 0.8,
                     shape_style=rng.choice(["random", "random", "left", "right", "balanced", "zigzag"])), nf
    if big:
        yield forest(rng, 70, [1, 2, 7], 300, "double", "double"), 300
        yield forest(rng, 2, 150, 3, "double", unique=True, shape_style="random"), 3
        yield forest(rng, 2, 60, 2, "dyadic", unique=True, shape_style="left"), 2
        yield forest(rng, 1, 60, 2, "dyadic", unique=True, shape_style="right"), 2
        yield forest(rng, 3, 255, 130, "short", unique=True, shape_style="balanced"), 130
        fr = forest(rng, 3, 4, 6, "dyadic", unique=True)
        for t in fr:                 # numbers of features that need more than sixteen bits
            for nd in nodes(t["root"]):
                if "f" in nd:
                    nd["f"] = [7, 32767, 32768, 40001, 65535, 65540][nd["f"]]
        yield fr, 65541
