from scorecommon import *


def one(ctx, m, base, lr, X, exact, only=None, order="dp"):
    n = X.shape[0]
    d = dataset(X)
    rec = dict(m=flat(m), base=enc(base), lr=enc(lr), exact=exact, threads=os.environ.get("OMP_NUM_THREADS"))
    ctx.mark(rec)
    def f():
        plain = None
        if order == "pd":
            plain = np.array(m.score(d))
        y, p, l = m.score(d, detailed=True)
        y, p, l = np.array(y), np.array(p), np.array(l)
        if plain is None:
            plain = np.array(m.score(d))
        return y, p, l, plain
    ok, v = ctx.call(f)
    rec["again"] = True
    if ok:
        y, p, l, plain = v
        if only is not None:
            # rows to be judged: a sample, and rows that look suspicious
            sel = set(rng_sample(ctx.rng, n, only))
            for _ in range(3):
                y2, p2, l2 = m.score(d, detailed=True)
                y3 = m.score(d)
                rec["again"] &= bool(np.array_equal(y2, y) and np.array_equal(p2, p) and np.array_equal(l2, l)
                                     and np.array_equal(y3, plain))
            for a in np.nonzero(np.abs(y - plain) > 1e-3 * (1 + np.abs(y)))[0][:50]:
                sel.add(int(a))
            sel = sorted(sel)
        else:
            sel = list(range(n))
        rec["X"] = encm(X[sel]) if sel else []
        g = lambda a: [a[k] for k in sel if k < len(a)]
        rec["out"] = dict(st="ok", y=encs(g(y)), part=encm(g(p)), leaves=[[int(q) for q in r] for r in g(l)], plain=encs(g(plain)))
    else:
        rec["X"], rec["out"] = [], dict(st="exc", exc=v)
    ctx.emit(rec)


def rng_sample(rng, n, k):
    return rng.sample(range(n), min(n, k))


def run(ctx):
    rng = ctx.rng
    t = os.environ.get("OMP_NUM_THREADS")
    for k in range(350 if ctx.thorough else 70):
        exact = k % 3 != 0
        nf = rng.choice([1, 2, 4, 9])
        m, fr, base, lr, fmt = random_model(ctx, exact, nf, n=rng.choice([1, 1, 2, 3, 5, 8, 13]))
        X = layout(rng, cells(rng, fr, nf + rng.choice([0, 1, 9]), rng.choice([0, 1, 2, 7, 16])))
        one(ctx, m, base, lr, X, exact, order=rng.choice(["pd", "dp"]))
    sizes = [(30, 15, 5, 3000, "random"), (64, 31, 10, 1500, "balanced"), (3, 40, 3, 4000, "left"), (200, [1, 3], 4, 500, "random")]
    for nt, ns, nf, n, style in sizes * (4 if ctx.thorough else 1):
        fr = forest(rng, nt, ns, nf, "dyadic", unique=True, shape_style=style, weights=("1", "0.5"))
        m = model(ctx, fr, learning_rate=0.5, base_score=1)
        X = np.array(cells(rng, fr, nf, n))
        one(ctx, m, Fraction(1), Fraction(1, 2), X, True, only=25)
