import logging
import sys
logging.disable(logging.CRITICAL)
from loaders import *


def oblivious(rng, depth, nf, unique):
    """CatBoost's own trees: one condition per level"""
    conds = [(rng.randrange(nf), token(rng, rng.choice(["dyadic", "double", "short"]))) for _ in range(depth)]
    cnt = [0]

    def rec(d):
        if d == depth:
            cnt[0] += 1
            return {"o": repr(cnt[0] / 8.0)}
        return {"f": conds[d][0], "t": conds[d][1], "l": rec(d + 1), "r": rec(d + 1)}
    return {"w": "1", "root": rec(0)}


def run(ctx):
    rng = ctx.rng
    k = 0

    def go(fr, nf, mode):
        p = ctx.path("m.coreml")
        # the bias of the model, and what the user wants in its place
        base = rng.choice([0.0, 0.0, 0.5, -3.25, 1 / 3.0, 1e-9, 123456.75])
        given = rng.choice([None, None, None, 0.0, 2.5])
        w = coreml(rng, fr, p, {0: lambda: False, 1: lambda: True, 2: lambda: rng.random() < 0.5}[mode], base)
        limit = -1 if k % 4 else rng.choice([1, len(fr), len(fr) + 1])
        kw = {} if given is None else dict(base_score=given)
        observe(ctx, dict(written=w, bias=repr(base), given="" if given is None else repr(given)), fr, p, "CatBoost", nf, limit, **kw)
    for fr, nf in forests(ctx, False, n_random=30, big=False):
        k += 1
        go(fr, nf, k % 3)
    for _ in range(120 if ctx.thorough else 25):
        k += 1
        nf = rng.choice([1, 3, 40])
        go([oblivious(rng, rng.choice([0, 1, 2, 3, 4, 6]), nf, True) for _ in range(rng.choice([1, 2, 3, 6]))], nf, 0)
    go(forest(rng, 70, [1, 2, 7], 300, "double", "double"), 300, 2)
    go([oblivious(rng, 8, 3, True), oblivious(rng, 2, 3, True), oblivious(rng, 8, 3, True)], 3, 0)
