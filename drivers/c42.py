"""A document scored alone and in company: in any order, repeated, with any
number of workers, by several threads at the same time."""
import hashlib, json, threading
from scorecommon import *


def run(ctx):
    rng = ctx.rng
    from rankeval.dataset import Dataset
    from rankeval.scoring.scorer import Scorer

    def dset(X):
        n, q, cur = len(X), [], 1
        for _ in range(n):
            cur += rng.random() < 0.3
            q.append(cur)
        return Dataset(X, np.zeros(n, dtype=np.float32), np.array(q))

    def answer(m, d, how):
        """per row: score, leaves, contributions (as far as asked for)"""
        if how == "plain":
            return [encs(m.score(d)), None, None]
        if how == "detailed":
            y, p, l = m.score(d, detailed=True)
            return [encs(y), encm(p), [[int(v) for v in r] for r in l]]
        s = Scorer(m, d)
        return [encs(s.score(False)), None, None]

    def one(m, X, companies, threads, often):
        """companies: lists of rows of X; threads: groups of them that are scored at once"""
        ctx.mark(dict(n=len(X), trees=int(m.n_trees)))

        def words(got, k):
            """the answer about row k in a word"""
            y, p, l = got
            return y[k] if p is None else y[k] + " by " + hashlib.sha256(json.dumps([p[k], l[k]]).encode()).hexdigest()[:16]

        def single():
            return {how: [words(answer(m, dset(X[d:d + 1]), how), 0) for d in range(len(X))] for how in ("plain", "detailed", "scorer")}
        ok, v = ctx.call(single)
        if not ok:
            ctx.emit(dict(alone_st="exc", exc=v))
            return
        alone = v

        def judged(docs, got, how, also="one by one"):
            y, p, l = got
            n = len(docs)
            if len(y) != n or (p is not None and (len(p) != n or len(l) != n)):
                return dict(st="ok", how=how, when=also, shape=False, docs=[], seen=[])
            seen = set()
            for k, d in enumerate(docs):
                seen.add((d + 1, words(got, k)))
            return dict(st="ok", how=how, when=also, shape=True, docs=sorted({d + 1 for d in docs}), seen=[list(s) for s in sorted(seen)])
        runs = []
        for docs, how in companies:
            ok, v = ctx.call(lambda: answer(m, dset(layout(rng, X[docs])), how))
            runs.append(judged(docs, v, how) if ok else dict(st="exc", how=how, exc=v))
        for group in threads:
            ds = [(docs, how, dset(np.ascontiguousarray(X[docs]))) for docs, how in group]
            out, gate = [[] for _ in ds], threading.Barrier(len(ds))

            def work(k):
                gate.wait()
                for _ in range(often):
                    out[k].append(ctx.call(lambda: answer(m, ds[k][2], ds[k][1])))
            ts = [threading.Thread(target=work, args=(k,)) for k in range(len(ds))]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            for (docs, how, _), res in zip(ds, out):
                for ok, v in res:
                    runs.append(judged(docs, v, how, "at the same time") if ok else dict(st="exc", how=how, exc=v))
        ctx.emit(dict(alone_st="ok", alone=alone, threads=os.environ["OMP_NUM_THREADS"], runs=runs))

    def company(n, size):
        k = rng.randrange(4)
        if k == 0:
            docs = list(range(n))
            rng.shuffle(docs)
        elif k == 1:
            docs = [rng.randrange(n) for _ in range(size)]
        elif k == 2:
            docs = [rng.randrange(n)] * rng.choice([2, 3, 7]) + [rng.randrange(n) for _ in range(rng.randrange(4))]
        else:
            docs = sorted(rng.sample(range(n), rng.randrange(1, n + 1)), reverse=rng.random() < 0.5)
        return docs, rng.choice(["plain", "plain", "detailed", "scorer"])

    for k in range(120 if ctx.thorough else 16):
        nf = rng.choice([1, 2, 5])
        m, fr, base, lr, fmt = random_model(ctx, True, nf)
        n = rng.choice([2, 5, 17, 40])
        X = cells(rng, fr, nf, n)
        one(m, X, [company(n, rng.choice([1, 2, 9, 64, 300])) for _ in range(8)], [[company(n, 40) for _ in range(rng.choice([2, 3, 5]))]], 3)
    # many trees over few rows, many rows over few trees: much to be disturbed
    sizes = [(300, [1, 3, 7], 5, 12, 12), (40, 31, 10, 60, 4000), (4, 3, 3, 60, 20000), (1000, 1, 3, 3, 3)]
    for nt, ns, nf, n, size in sizes * (4 if ctx.thorough else 1):
        fr = forest(rng, nt, ns, nf, "dyadic", unique=True, shape_style="random", weights=("1", "0.5"))
        m = model(ctx, fr, learning_rate=0.5, base_score=1)
        X = np.array(cells(rng, fr, nf, n))
        full = lambda how: ([rng.randrange(n) for _ in range(size)], how)
        one(m, X, [full("plain"), full("plain"), full("detailed"), full("scorer")] if size < 20000 else [full("plain"), full("scorer")],
            [[full("plain"), full("plain"), full("plain" if size >= 4000 else "detailed")]], 6 if size < 4000 else 2)
