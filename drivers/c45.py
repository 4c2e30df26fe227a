"""Histories of loading, using and dropping datasets, models and results.
After every step everything that is held is read again, and the memory in use
is compared with what is held.  Memory that is given back is overwritten."""
import bz2, ctypes, gc, gzip, hashlib
from scorecommon import *


class Info(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in "arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost".split()]


libc = ctypes.CDLL(None)
libc.mallinfo2.restype = Info


def used():
    gc.collect()
    i = libc.mallinfo2()
    return i.uordblks + i.hblkhd


def digest(o):
    """of everything in an object"""
    h = hashlib.md5()

    def add(o):
        if isinstance(o, np.ndarray):
            h.update(str((o.shape, o.dtype)).encode())
            h.update(np.ascontiguousarray(o).tobytes())
        elif isinstance(o, (list, tuple)):
            for x in o:
                add(x)
        else:
            for name in ("X", "y", "query_ids", "query_offsets", "trees_root", "trees_weight", "trees_left_child", "trees_right_child",
                         "trees_nodes_value", "trees_nodes_feature"):
                if isinstance(getattr(o, name, None), np.ndarray):
                    add(getattr(o, name))
    add(o)
    return h.hexdigest()


def kb(o):
    """kilobytes an object may refer to"""
    if isinstance(o, np.ndarray):
        while isinstance(o.base, np.ndarray):
            o = o.base
        return o.nbytes // 1024 + 1
    if isinstance(o, (list, tuple)):
        return sum(kb(x) for x in o)
    return 2 + sum(kb(v) for v in vars(o).values() if isinstance(v, np.ndarray))


class Broken(object):
    def __init__(self, room):
        self.room = room

    def write(self, s):
        self.room -= len(s)
        if self.room < 0:
            raise OSError(28, "no space left")


def run(ctx):
    from rankeval.dataset import Dataset
    from rankeval.model import RTEnsemble
    from rankeval.dataset.svmlight_format import load_svmlight_file, load_svmlight_files, dump_svmlight_file
    from rankeval.analysis.effectiveness import model_performance, tree_wise_performance, rank_confusion_matrix
    from rankeval.analysis.feature import feature_importance
    from rankeval.analysis.topological import topological_analysis
    from rankeval.metrics import NDCG, MAP, MSE, Kendalltau
    rng = ctx.rng
    libc.mallopt(-6, 0xA5)
    files, bad = [], []
    for j, (n, nf) in enumerate([(300, 10), (40, 4), (6000, 60), (2500, 100)]):
        p = ctx.path("d%d.txt" % j)
        cells_ = np.array([[rng.randrange(1, 99) for _ in range(nf)] for _ in range(50)])
        lines = ["%d qid:%d %s\n" % (k % 5, k // 20 + 1, " ".join("%d:%d" % (c + 1, v) for c, v in enumerate(cells_[k % 50]))) for k in range(n)]
        with open(p, "w") as f:
            f.writelines(lines)
        g = ctx.path("d%d.txt.gz" % j) if j % 2 else ctx.path("d%d.txt.bz2" % j)
        with (gzip.open if j % 2 else bz2.open)(g, "wt") as f:
            f.writelines(lines)
        files.append((p, g, n, nf))
        for i, wrong in enumerate(("1 qid:1 x:2\n", "1 qid:a 1:2\n", "not a line\n", "1 qid:1 2:3 1:4\n")):
            b = ctx.path("b%d%d.txt" % (j, i))
            with open(b, "w") as f:
                f.writelines(lines + [wrong])
            bad.append((b, n, nf))
    fr = forest(rng, 60, [15, 31], 4, "dyadic")
    mp = ctx.path("m.xml")
    quickrank(fr, mp)
    damaged = ctx.path("m.bad")
    with open(damaged, "w") as f:
        f.write(open(mp).read()[:-200])

    def refuse(f):
        def g():
            try:
                f()
            except Exception:
                return []
            raise AssertionError("not refused")
        return g

    def history(steps, start):
        ev, held, ident = [], {}, [0]

        def record(op, f, gone=(), repeat=1):
            """f gives the new things that are held from now on; only the last time they are kept"""
            ctx.mark(dict(steps=[e["what"] for e in ev] + [op]))
            new, ok, exc = [], True, ""
            for _ in range(repeat):
                new = []
                ok, v = ctx.call(f)
                if not ok:
                    exc = str(v)
                    break
                new = v
                del v
            info = []
            for o, extra in new:
                ident[0] += 1
                held[ident[0]] = (o, digest(o), extra)
                info.append(dict(id=ident[0], kb=kb(o) + extra))
            del new
            o = None
            fine = all(digest(o) == d for o, d, _ in held.values())
            o = None
            ev.append(dict(op="do", what=op, st="ok" if ok else "exc", exc=exc, new=info, gone=list(gone), fine=fine, kb=max(0, used() - start) // 1024))

        def pick(kind, features=0):
            ids = [k for k, (o, _, _) in held.items() if isinstance(o, kind) and (not features or (o.n_features >= features and o.n_instances))]
            return rng.choice(ids) if ids else None
        for op in steps:
            small = rng.random() < 0.6
            p, g, n, nf = files[rng.randrange(2) if small else rng.randrange(2, 4)]
            many = (20 if n > 100 else 60) if small else 1
            if op == "rows":
                path, ids = rng.choice([p, p, g]), rng.random() < 0.7
                record(op, lambda: [(x, 0) for x in load_svmlight_file(path, query_id=ids)], repeat=many)
            elif op == "together":
                record(op, lambda: [(x, 0) for x in load_svmlight_files([p, p], query_id=True)], repeat=max(1, many // 4))
            elif op == "dataset":
                record(op, lambda: [(Dataset.load(rng.choice([p, g])), 0)], repeat=many)
            elif op == "bad":
                b = rng.choice([b for b, bn, _ in bad if (bn < 1000) == small])
                record(op, refuse(lambda: load_svmlight_file(b, query_id=True)), repeat=many)
            elif op == "missing":
                record(op, refuse(lambda: load_svmlight_file(ctx.path("no such file"), query_id=True)), repeat=many)
            elif op == "model":
                record(op, lambda: [(load(mp), 0)], repeat=4 if small else 1)
            elif op == "bad model":
                record(op, refuse(lambda: load(damaged)), repeat=4)
            elif op == "view":
                k = pick(np.ndarray)
                if k is None:
                    continue
                record(op, lambda: [(rng.choice([lambda a: a[::2], lambda a: a.T, lambda a: a[1:], lambda a: a.reshape(-1)])(held[k][0]), kb(held[k][0]))])
            elif op == "drop":
                k = pick(object)
                if k is None:
                    continue
                held.pop(k)
                record(op, lambda: [], [k])
            elif op in ("dump", "dump fails", "score", "detailed", "cached", "forget", "copy", "measure", "analyse", "parts", "stale"):
                d, m = pick(Dataset, 1 if op in ("dump", "dump fails", "parts") else 4), pick(RTEnsemble)
                D, M = (held[d][0] if d else None), (held[m][0] if m else None)
                if D is None or (M is None and op not in ("dump", "dump fails", "parts")):
                    del D, M
                    continue
                light = 1 if D.n_instances > 1000 else 10
                if op == "dump":
                    record(op, lambda: D.dump(ctx.path("out.txt")) or [], repeat=min(light, 3))
                elif op == "dump fails":
                    record(op, refuse(lambda: dump_svmlight_file(D.X, D.y, Broken(rng.choice([0, 1, 10])), query_id=D.get_qids_dataset())), repeat=light)
                elif op == "score":
                    record(op, lambda: [(M.score(D), 0)], repeat=light)
                elif op == "detailed":
                    record(op, lambda: [(x, 0) for x in M.score(D, detailed=True)], repeat=light)
                elif op == "cached":
                    extra = kb(D) + D.n_instances * 4 * (1 + 2 * M.n_trees) // 1024 + 1
                    det = rng.random() < 0.5
                    record(op, lambda: [(x, 0) for x in (M.score(D, detailed=True, cache=True) if det else (M.score(D, cache=True),))])
                    # the model refers to them from now on
                    o, dg, e = held[m]
                    held[m] = (o, dg, e + extra)
                    ev[-1]["new"].append(dict(id=m, kb=kb(o) + e + extra))
                    del o
                elif op == "forget":
                    M.clear_cache()
                    held[m] = (M, held[m][1], 0)
                    record(op, lambda: [])
                    ev[-1]["new"].append(dict(id=m, kb=kb(M)))
                elif op == "copy":
                    k = rng.choice([None, 5, 30])
                    record(op, lambda: [(M.copy(k), held[m][2])], repeat=1 if held[m][2] else 5)
                elif op == "stale":
                    record(op, refuse(lambda: M.score(Dataset(np.ones((D.n_instances, 1), dtype=np.float32), D.y, D.get_qids_dataset()))), repeat=light)
                elif op == "measure":
                    record(op, lambda: [(x.eval(D, D.y[::-1])[1], 0) for x in (NDCG(cutoff=5), MAP(), MSE(), Kendalltau())])
                elif op == "analyse":
                    record(op, lambda: [(np.asarray(x, dtype=np.float64), 0) for x in rng.choice([
                        lambda: (model_performance([D], [M], [NDCG()]).values,), lambda: (tree_wise_performance([D], [M], [MSE()], step=20).values,),
                        lambda: feature_importance(M, D), lambda: (topological_analysis(M).avg_tree_shape().toarray(),),
                        lambda: (rank_confusion_matrix([D], [M]).values,)])()])
                elif op == "parts":
                    record(op, lambda: [(x, kb(D)) for x in rng.choice([
                        lambda: D.split(0.5, 0.2, random_state=3), lambda: [D.subset(D.query_ids[:2])], lambda: [D.subset_features([0, D.n_features - 1])],
                        lambda: [x for f in D.kfold(3) for x in f][:2]])() if x is not None], repeat=min(light, 3))
                del D, M
        gone = list(held)
        held.clear()
        record("drop all", lambda: [], gone)
        return ev

    every = ["rows", "together", "dataset", "bad", "missing", "model", "bad model", "view", "dump", "dump fails", "score", "detailed", "cached",
             "forget", "copy", "measure", "analyse", "parts", "stale", "drop"]
    # everything once, for what is only set up once
    state = rng.getstate()
    for _ in range(3):
        history(["dataset", "model"] + every, used())
    rng.setstate(state)
    for k in range(200 if ctx.thorough else 30):
        steps = ["rows", "view", "drop", "drop"] * 2 if k % 10 == 0 else ["dataset", "model"] if k % 10 < 8 else []
        steps += [rng.choice(every + ["drop"] * 6) for _ in range(rng.randrange(6, 25))]
        start = used()
        ctx.emit(dict(ev=history(steps, start)))
