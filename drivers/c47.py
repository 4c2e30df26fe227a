"""Questions asked by several threads at the same time about the same models,
datasets and metrics: one thread at a time has its turn, and loses it before
chosen steps of the library's own code; every answer against the one that fresh
copies of everything give."""
import copy
from c39 import *
from c46 import Things, more
from stepping import Steps, Turns


def answer(v):
    return dict(st="ok", says=[form(x) for x in v[1]]) if v[0] else dict(st="exc", says=[])


def overtaken(ctx, pair, what, digest, fine=False, most=400):
    """two questions (made of fresh things by what), the second of them asked and answered before
    a step of the first: every step in turn"""
    rng, places = ctx.rng, []
    things = what()
    f, g = pair(things)
    s = Steps(lambda n, place: places.append(n), fine)
    wants = [answer(ctx.call(s, f))]
    wants.append(answer(ctx.call(pair(what())[1])))
    if len(places) > most:
        places = sorted(rng.sample(places, most))
    things = what()
    before, evs = digest(things), []
    for n in places:
        ctx.mark(dict(before=n))
        f, g = pair(things)
        out = Turns({n}, fine).run([lambda: ctx.call(f), lambda: ctx.call(g)])
        got = [answer(x) if x else dict(st="lost", says=[]) for x in out]
        now = digest(things)
        e = dict(op="together", asked=["before step %d" % n], fine=fine, got=got, want=wants, lost=[], changed=[j + 1 for j in range(len(now)) if now[j] != before[j]])
        # one of the many that say the same is enough
        if evs and got == wants and not e["changed"] and len(evs) >= 3:
            continue
        evs.append(e)
    return evs


def systematic(ctx):
    rng = ctx.rng
    for name in ("P", "R", "MRR", "MAP", "RBP", "ERR", "Pf", "DCG", "NDCG", "PMax", "MSE", "K", "Rho"):
        p = MC.params(rng, [dict(y=[0] * 4)])
        if name in ("MSE", "K", "Rho"):
            p["cutoff"] = 0
        elif rng.random() < 0.5:
            p["cutoff"] = 0
        qs = [MC.query(rng, 4, lab="graded") for _ in range(2)]
        d, s = MC.build(qs, [1, 2])
        e, t = MC.build([MC.query(rng, 4, lab="graded") for _ in range(2)], [1, 2])
        u = np.array(rng.sample(list(s), len(s)), dtype=s.dtype)

        def evaluate(d, s):
            return lambda m: (lambda r: [np.asarray(r[0]), np.asarray(r[1])])(m.eval(d, s))

        def query(k, s):
            return lambda m: [np.asarray(m.eval_per_query(d.y[4 * k:4 * k + 4], s[4 * k:4 * k + 4]))]
        for f, g in ([evaluate(d, s), evaluate(d, u)], [evaluate(d, s), evaluate(e, t)], [query(0, s), query(1, s)]):
            evs = overtaken(ctx, lambda m: (lambda: f(m), lambda: g(m)), lambda: MC.metric(name, p), lambda m: [str(m)] + [digest_data(x) for x in (d, e)],
                            fine=ctx.thorough)
            ctx.emit(dict(ev=evs, metric=name))
    from rankeval.scoring import Scorer
    _, models, datasets = setup(ctx, nmodels=1, ndata=2, splits_=(1, 3), whole=True)
    m, (d, e) = models[0], datasets[:2]
    asks = dict(plain=lambda m, d, s: [np.array(m.score(d, False))],
                detailed=lambda m, d, s: [np.array(x) for x in m.score(d, True)],
                cached=lambda m, d, s: [np.array(m.score(d, False, True))],
                once=lambda m, d, s: [np.array(s.score(False))],
                parts=lambda m, d, s: [np.array(s.get_partial_predicted_scores()), np.array(s.get_predicted_scores())],
                leaves=lambda m, d, s: [np.array(s.get_predicted_leaves())])
    for a in sorted(asks):
        for b in sorted(asks):
            if a in ("once", "parts", "leaves") or b in ("plain", "detailed", "cached"):
                for other in (d, e):
                    def fresh():
                        x = copy.deepcopy(m)
                        return x, Scorer(x, d)
                    evs = overtaken(ctx, lambda x: (lambda: asks[a](x[0], d, x[1]), lambda: asks[b](x[0], other, x[1])), fresh,
                                    lambda x: [digest_model(x[0])] + [digest_data(y) for y in (d, e)], fine=ctx.thorough, most=60 if not ctx.thorough else 300)
                    ctx.emit(dict(ev=evs, pair=[a, b]))


def run(ctx):
    systematic(ctx)
    from rankeval.model import RTEnsemble
    from rankeval.dataset import Dataset
    rng = ctx.rng
    qs = more(questions())
    for q in ("significance", "bias", "plot", "parts"):      # these use what numpy and matplotlib share between threads
        del qs[q]

    def again(p, a):
        m = RTEnsemble(a["model"], format="QuickRank")
        return [np.asarray(m.trees_nodes_value), np.asarray(m.trees_left_child), np.asarray(m.trees_weight)]

    def rows(p, a):
        d = Dataset.load(a["rows"])
        return [d.X, d.y, np.asarray(d.get_qids_dataset())]
    qs.update(again=again, rows=rows)
    kins = [["evaluate", "perquery"], ["score", "detailed", "evaluate"], ["scorer"], ["evaluate"], ["evaluate"], ["evaluate"], ["performance", "evaluate", "perquery", "treewise"],
            ["importance", "topology", "draw", "save", "copy"], ["rows", "again", "dump"], sorted(qs), sorted(qs)]
    for k in range(2000 if ctx.thorough else 220):
        _, models, datasets = setup(ctx, nmodels=rng.choice([1, 2]), ndata=rng.choice([1, 2]), splits_=(1, 3, 7), whole=True)
        recs, _ = some_metrics(rng, rng.choice([1, 2])) if rng.random() < 0.6 else some_metrics(rng, 1, ("NDCG",))
        names = [None for _ in recs]
        pool = Things(models, datasets, recs, names)
        pristine = copy.deepcopy((models, datasets))
        before = pool.digests()
        src = [ctx.path("again.xml"), ctx.path("rows.txt")]
        models[0].save(src[0])
        datasets[0].dump(src[1], "svmlight")
        rec = dict(ev=[])
        kin = rng.choice(kins)
        for _ in range(rng.choice([2, 4, 6])):
            n = rng.choice([2, 2, 2, 3])
            asks = []
            for t in range(n):
                a = arguments(rng, None, pool, ctx.path("out%d.txt" % t))
                if asks and rng.random() < 0.75:
                    a = dict(a, d=asks[0][1]["d"], m=asks[0][1]["m"], s=asks[0][1]["s"])
                if asks and rng.random() < 0.3:
                    a = dict(a, cache=asks[0][1]["cache"])
                a.update(model=src[0], rows=src[1])
                q = rng.choice(kin if rng.random() < 0.7 else sorted(qs))
                asks.append((q, a))
            fine = rng.random() < 0.25
            ctx.mark(dict(history=[e["asked"] for e in rec["ev"]], asks=asks, fine=fine))
            wants, steps, places = [], [], {}
            for q, a in asks:
                fresh = Things(*copy.deepcopy(pristine), recs, names)
                s = Steps((lambda n, place: places.setdefault(place, []).append(n)) if not steps else (lambda n, place: None), fine)
                wants.append(s(lambda: ask(ctx, qs[q], fresh, a))[1])
                steps.append(s.n)
            # how often the turn changes: a few times anywhere, or all the time
            style, total = rng.random(), sum(steps)
            if style < 0.7:
                at = {rng.randrange(1, total + 1) for _ in range(rng.choice([1, 2, 3, 5]))} if total else set()
                if rng.random() < 0.7 and places:       # any place in the code of the first one is as likely as another
                    at.add(rng.choice(places[rng.choice(sorted(places))]))
            elif style < 0.9:
                p = rng.choice([0.02, 0.1, 0.5])
                at = {x for x in range(1, total + 1) if rng.random() < p}
            else:
                at = set(range(1, total + 1))
            turns = Turns(at, fine)
            got = turns.run([(lambda q=q, a=a: ask(ctx, qs[q], pool, a)) for q, a in asks])
            now = pool.digests()
            e = dict(op="together", asked=[[q, {x: y for x, y in a.items() if x not in ("path", "model", "rows")}] for q, a in asks], fine=fine,
                     got=[g[1] if g else dict(st="lost", says=[]) for g in got], want=wants,
                     changed=[j + 1 for j in range(len(now)) if now[j] != before[j]], lost=[])
            # what was handed out, now that all are done
            for j, g in enumerate(got):
                if g and [form(x) for x in g[0]] != g[1]["says"]:
                    e["lost"].append(j + 1)
            rec["ev"].append(e)
        ctx.emit(rec)
