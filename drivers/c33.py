"""Histories of questions to a Scorer."""
from scorecommon import *


def history(ctx, m, X, n, exact):
    from rankeval.scoring.scorer import Scorer
    rng = ctx.rng
    d = dataset(X)
    s = Scorer(m, d)
    rec = dict(m=flat(m), X=encm(X), exact=exact, ev=[])
    ctx.mark(rec)
    ops = ["basic", "detailed", "scores", "parts", "leaves"]
    for k in range(n):
        op = rng.choice(ops + (["write"] if exact and k else []))
        e = dict(op=op)
        if op == "write":           # the weights a scoring saw can be told from its scores
            m.trees_weight *= np.float32(2)
            e["w"] = encs(m.trees_weight)
            rec["ev"].append(e)
            continue

        def f():
            if op == "basic":
                return encs(s.score(False) if rng.random() < 0.5 else s.score(detailed=False))
            if op == "detailed":
                return encs(s.score(detailed=True))
            if op == "scores":
                return encs(s.get_predicted_scores())
            if op == "parts":
                return encm(s.get_partial_predicted_scores())
            return [[int(q) for q in r] for r in s.get_predicted_leaves()]
        ok, v = ctx.call(f)
        e.update(dict(st="ok", out=v) if ok else dict(st="exc", out=[], exc=v, msg=str(ctx.last_exc)[:200]))
        rec["ev"].append(e)
    ctx.emit(rec)


def run(ctx):
    rng = ctx.rng
    for k in range(1500 if ctx.thorough else 220):
        exact = k % 4 != 0
        nf = rng.choice([1, 2, 4])
        m, fr, base, lr, fmt = random_model(ctx, exact, nf, n=rng.choice([1, 1, 2, 3, 5, 9]))
        X = layout(rng, cells(rng, fr, nf + rng.choice([0, 1]), rng.choice([1, 2, 5, 9])))
        history(ctx, m, X, rng.choice([1, 2, 3, 5, 8]), exact)
