from datacommon import *
import forest
from vlib.child import encs, encm


def spec(X, y, q, nf):
    return dict(X=encm(X), y=encs(y), q=ints(q), nf=nf)


def variants(rng, X, y, q):
    """datasets that differ from (X, y, q) in one respect, and equal ones in another memory layout"""
    n, nf = X.shape
    yield "copy", X.copy(), y.copy(), q.copy()
    yield "column-major", np.asfortranarray(X), y.copy(), q.copy()
    big = np.zeros((2 * n, 2 * nf), dtype=X.dtype)
    big[::2, ::2] = X
    yb = np.repeat(y, 2)
    yield "strided", big[::2, ::2], yb[::2], q.copy()
    for r, c in {(0, 0), (n - 1, nf - 1), (rng.randrange(n), rng.randrange(nf))}:
        Z = X.copy()
        Z[r, c] += 1
        yield "one cell", Z, y, q
    z = y.copy()
    z[rng.randrange(n)] += 1
    yield "one label", X, z, q
    # the smallest possible differences
    Z = X.copy()
    r, c = rng.randrange(n), rng.randrange(nf)
    Z[r, c] = np.nextafter(Z[r, c], np.float32(1e9))
    yield "next float", Z, y, q
    z = y.copy()
    r = rng.randrange(n)
    z[r] = np.nextafter(z[r], np.float32(1e9))
    yield "next label", X, z, q
    yield "large and next", X + np.float32(2 ** 24), X[:, 0], q
    # zeros of both signs are the same value
    Z, z = X.copy(), y.copy()
    Z[X == 0], z[y == 0] = -0.0, -0.0
    yield "negative zeros", Z, z, q
    yield "renamed query", X, y, np.where(q == q[-1], 10 ** 6, q).astype(q.dtype)
    starts = [k for k in range(1, n) if q[k] != q[k - 1]]
    if starts:
        k = rng.choice(starts)
        z = q.copy()
        size_after = int((q == q[k]).sum())
        size_before = int((q == q[k - 1]).sum())
        if size_after > 1:
            z[k] = q[k - 1]
            yield "boundary later", X, y, z
        if size_before > 1:
            z = q.copy()
            z[k - 1] = q[k]
            yield "boundary earlier", X, y, z
        z = q.copy()
        z[q == q[k]], z[q == q[k - 1]] = q[k - 1], q[k]
        yield "exchanged ids", X, y, z
    if n > 1:
        yield "fewer rows", X[:-1], y[:-1], q[:-1]
        yield "first row only", X[:1], y[:1], q[:1]
        yield "reversed rows", X[::-1].copy(), y[::-1].copy(), q.copy()
    yield "more rows", np.vstack([X, X[-1:]]), np.append(y, y[-1:]), np.append(q, q[-1:])
    yield "more columns", np.hstack([X, X[:, :1]]), y, q
    if nf > 1:
        yield "fewer columns", X[:, :-1], y, q
    if nf > 1 and n > 1:
        Z = np.ascontiguousarray(X.ravel().reshape(nf, n))
        m = min(n, nf)
        if n == nf:
            yield "transposed", np.ascontiguousarray(X.T), y, q


def pair(ctx, a, b, how):
    from rankeval.dataset import Dataset
    rng = ctx.rng

    def f():
        names = [rng.choice([None, "a", "b"]) for _ in "ab"]
        A, B = Dataset(*a, name=names[0]), Dataset(*b, name=names[1])
        first = ctx.rng.random() < 0.5
        ha = hash(A) if first else None
        eq, eq2, ne = A == B, B == A, A != B
        ha2, hb = hash(A), hash(B)
        return dict(st="ok", eq=bool(eq), eq2=bool(eq2), ne=bool(ne),
                    isbool=all(isinstance(v, (bool, np.bool_)) for v in (eq, eq2, ne)), hasheq=hash(A) == hb,
                    indict=(B in {A: 1}), stable=(ha in (None, ha2)) and hash(A) == ha2)
    ok, v = ctx.call(f)
    ctx.emit(dict(kind="pair", how=how, a=spec(*a, a[0].shape[1]), b=spec(*b, b[0].shape[1]),
                  out=v if ok else dict(st="exc", exc=v)))


def keyed(ctx, a, b, how):
    """answers for a then b from caches keyed by dataset, against fresh objects"""
    from rankeval.dataset import Dataset
    from rankeval.metrics import NDCG
    rng = ctx.rng
    fr = forest.forest(rng, 3, [1, 2, 3], 1)
    fr[0]["root"] = {"f": 0, "t": repr(float(np.median(a[0][:, 0]))), "l": {"o": "1"}, "r": {"o": "2"}}
    p = ctx.path("m.xml")
    forest.quickrank(fr, p)

    def scores(ds, m):
        return [encs(m.score(d, cache=True)) for d in ds]

    def f():
        A, B = Dataset(*a), Dataset(*b)
        seq = [A, B, A, B] if rng.random() < 0.5 else [B, A, A, B]
        m, met = forest.load(p), NDCG(cutoff=rng.choice([None, 2]))
        s, n = [], []
        s1, n1 = [], []
        for d in seq:
            pred = np.arange(d.n_instances, dtype=np.float32) * (1 if how != "x" else -1)
            s.append(encs(m.score(d, cache=True)))
            n.append(encs(met.eval(d, pred)[1]))
            s1.append(encs(forest.load(p).score(d)))
            n1.append(encs(NDCG(cutoff=met.cutoff).eval(d, pred)[1]))
        return s, s1, n, n1
    ok, v = ctx.call(f)
    if not ok:
        v = (["failed " + v], [], [], [])
    ctx.emit(dict(kind="keyed", how=how, scores=v[0], fresh_scores=v[1], ndcg=v[2], fresh_ndcg=v[3]))


def run(ctx):
    rng = ctx.rng
    bases = []
    for c in ctx.cases[0]:
        if c["kind"] == "layout" and len(c["ids"]) <= 3:
            bases.append((c["ids"], c["sizes"], 1 + len(bases) % 3))
    if not ctx.thorough:
        bases = bases[::2]
    for _ in range(150 if ctx.thorough else 25):
        n = rng.choice([1, 2, 3, 6, 12])
        bases.append((random_ids(rng, n), random_sizes(rng, n), rng.randrange(1, 4)))
    for ids, sizes, nf in bases:
        a = make(rng, ids, sizes, nf)
        for how, *b in variants(rng, *a):
            pair(ctx, a, tuple(b), how)
            if rng.random() < 0.2:
                pair(ctx, tuple(b), a, how)
            if nf == b[0].shape[1] and rng.random() < 0.25:
                keyed(ctx, a, tuple(b), how)
        # broadcastable shapes with equal contents
        ones = lambda n, k: (np.ones((n, k), dtype=np.float32), np.ones(n, dtype=np.float32), np.ones(n, dtype=np.int32))
        pair(ctx, ones(1, 1), ones(rng.randrange(1, 4), rng.randrange(1, 4)), "broadcast")
        a2 = make(rng, ids, sizes, nf)
        pair(ctx, a, a2, "other contents")
