"""Datasets with small integer contents, and what is read back from them."""
import numpy as np


FAR = 2 ** 40    # query ids from here on are recorded as numbers from 2000000000 on
NEAR = 2 * 10 ** 9


def ints(a):
    """exact small integers of an array (a cell that is not one becomes -999999)"""
    out = []
    for v in np.asarray(a, dtype=object).ravel():
        try:
            if isinstance(v, (int, np.integer)) and FAR <= int(v) < FAR + 10 ** 6:
                v = int(v) - FAR + NEAR
            out.append(int(v) if float(v) == int(v) and abs(int(v)) < 2 ** 31 else -999999)
        except (ValueError, OverflowError):
            out.append(-999999)
    return out


def rows(X):
    return [ints(r) for r in X]


def content(X, y, q):
    return dict(X=rows(X), y=ints(y), q=ints(q))


def read(d):
    """contents of a dataset, through its public interface"""
    q = np.empty(d.n_instances, dtype=np.int64)
    q[:] = -77777777
    for qid, a, b in d.query_iterator():
        q[a:b] = qid
    return content(d.X, d.y, q)


def make(rng, ids, sizes, nf, ylim=5, base=None):
    """arrays X, y, q; every cell identifies its row and column"""
    n = sum(sizes)
    base = rng.randrange(0, 100) if base is None else base
    X = np.array([[1000 * (r + base) + c for c in range(nf)] for r in range(n)], dtype=np.float32).reshape(n, nf)
    y = np.array([rng.randrange(ylim) for _ in range(n)], dtype=np.float32)
    q = np.array([i for i, s in zip(ids, sizes) for _ in range(s)], dtype=np.int64 if max(ids) >= FAR else np.int32)
    return X, y, q


def random_ids(rng, n, far=False):
    """distinct query ids; with far, also ids of more than 32 bits"""
    style = rng.randrange(7 if far else 6)
    if style == 0:
        return list(range(1, n + 1))
    if style == 1:
        return list(range(n, 0, -1))
    if style == 2:
        ids = list(range(0, n))
    elif style == 3:
        ids = rng.sample(range(0, 4 * n + 10), n)
    elif style == 5:
        ids = rng.sample(range(-2 * n - 5, 2 * n + 5), n)
    elif style == 6:
        ids = rng.sample(range(FAR, FAR + 4 * n + 10), n)
    else:
        ids = rng.sample(range(0, 2 * 10 ** 9), n)
    rng.shuffle(ids)
    return ids


def random_sizes(rng, n):
    style = rng.randrange(4)
    if style == 0:
        return [1] * n
    if style == 1:
        return [rng.randrange(1, 4) for _ in range(n)]
    if style == 2:
        return [rng.choice([1, 1, 2, 20]) for _ in range(n)]
    return [rng.randrange(1, 9) for _ in range(n)]
