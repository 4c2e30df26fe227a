"""Names of models, datasets and metrics."""
from datacommon import *
import forest as FO
from scorecommon import model as load_model
import itertools


def metrics(ctx):
    from rankeval import metrics as M
    from rankeval.metrics.precision_max import PrecisionMax
    classes = dict(P=M.Precision, R=M.Recall, PMax=PrecisionMax, MRR=M.MRR, MAP=M.MAP, RBP=M.RBP, ERR=M.ERR, Pf=M.Pfound, DCG=M.DCG,
                   NDCG=M.NDCG, MSE=M.MSE, RMSE=M.RMSE, K=M.Kendalltau, Rho=M.SpearmanRho)
    for cls in classes:
        for name, cutoff, thr in itertools.product(["", "mine", "a b"], ["", "1", "5", "10", "100"], ["", "1", "1.0", "2", "3", "0.5"]):
            kw = {}
            if cls in ("K", "Rho"):
                if cutoff or thr:
                    continue
            if thr and cls not in ("P", "R", "MRR", "RBP"):
                continue
            if name:
                kw["name"] = name
            if cutoff:
                kw["cutoff"] = int(cutoff)
            if thr:
                kw["threshold"] = float(thr) if "." in thr else int(thr)
            rec = dict(kind="metric", st="ok", **{"class": cls}, name=name, cutoff=cutoff, thr=thr)
            ctx.mark(rec)
            ok, v = ctx.call(lambda: str(classes[cls](**kw)))
            rec.update(out=v) if ok else rec.update(st="exc", exc=v)
            ctx.emit(rec)


def datasets(ctx, n):
    from rankeval.dataset import Dataset
    rng = ctx.rng
    for _ in range(n):
        nq, nf = rng.randrange(4, 9), rng.randrange(1, 5)
        X, y, q = make(rng, random_ids(rng, nq), random_sizes(rng, nq), nf)
        name = rng.choice(["", "", "MSLR", "fold 1"])
        rec = dict(kind="dataset", st="ok", name=name, rows=str(len(X)), cols=str(nf))
        ctx.mark(rec)

        def f():
            d = Dataset(X, y, q, name or None)
            out = dict(out=str(d), features=str(d.subset_features(list(range(nf)))))
            out["parts"] = [str(p) for p in (d.split(0.5) if rng.random() < 0.5 else d.split(0.4, 0.3))]
            pick = d.query_ids[:2]
            s = d.subset(pick)
            out.update(named=str(d.subset(pick, name="mine")), unnamed=str(s), subrows=str(sum(int(e) - int(b) for k, b, e in d.query_iterator() if k in pick)))
            return out
        ok, v = ctx.call(f)
        rec.update(v) if ok else rec.update(st="exc", exc=v)
        ctx.emit(rec)


def models(ctx, n):
    from rankeval.model import RTEnsemble
    rng = ctx.rng
    for k in range(n):
        fr = FO.forest(rng, 3, [1, 2, 3], 4)
        p = ctx.path("m%d.xml" % k)
        FO.quickrank(fr, p, rng)
        name = rng.choice(["", "mine", "LambdaMART 1"])
        rec = dict(kind="model", st="ok", name=name, path=p)
        ctx.mark(rec)

        def f():
            m = RTEnsemble(p, name=name or None, format="QuickRank")
            out = dict(out=str(m), copy=str(m.copy()))
            c = m.copy(n_trees=2)
            out["pruned"] = str(c)
            c.name = "other"
            out["still"] = str(m) == out["out"]
            return out
        ok, v = ctx.call(f)
        rec.update(v) if ok else rec.update(st="exc", exc=v)
        ctx.emit(rec)


def run(ctx):
    metrics(ctx)
    datasets(ctx, 300 if ctx.thorough else 40)
    models(ctx, 120 if ctx.thorough else 20)
