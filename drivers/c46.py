"""Histories of questions some of which are interrupted at a step of the
library's own code; every answer against the one that fresh copies of
everything give."""
import copy
from c39 import *
from stepping import Steps


class Things(Pool):
    """with scorers that stay"""
    def __init__(self, *a):
        super(Things, self).__init__(*a)
        self.scorers = {}


def more(qs):
    def scorer(p, a):
        from rankeval.scoring import Scorer
        k = (a["m"][0], a["d"][0])
        if k not in p.scorers:
            p.scorers[k] = Scorer(p.models[k[0]], p.datasets[k[1]])
        s = p.scorers[k]
        return [[lambda: s.score(False)], [lambda: s.score(True)], [s.get_predicted_scores], [s.get_partial_predicted_scores],
                [s.get_predicted_leaves], [lambda: s.score(True), s.get_predicted_leaves]][a["seed"] % 6][-1]()

    def asked(p, a):
        r = scorer(p, a)
        return [np.array(r)]

    def perquery(p, a):
        d, s = p.datasets[a["d"][0]], p.metrics[a["s"][0]]
        m = p.models[a["m"][0]].score(d)
        return [np.asarray([s.eval_per_query(d.y[b:e], m[b:e]) for _, b, e in d.query_iterator()], dtype=np.float64)]

    def compared(p, a):
        d, e = p.datasets[a["d"][0]], p.datasets[a["d"][-1]]
        return [str(d == e), str((hash(d) == hash(e)) or d != e), np.asarray([x for q in d.query_iterator() for x in q])]
    qs.update(scorer=asked, perquery=perquery, compared=compared)
    return qs


def interrupted(ctx, f, pool, a, count, choose, fine, what):
    """the question with an interruption before a step; (its outcome, what was returned)"""
    at = choose(count)

    def act(n, place):
        if n == at:
            raise what("interrupted")
    steps = Steps(act, fine)
    try:
        v = ctx.call(steps, lambda: (lambda r: (r, [form(x) for x in r]))(f(pool, a)))
    except KeyboardInterrupt:
        return dict(st="cut", says=[]), []
    if v[0]:
        return dict(st="ok", says=v[1][1]), v[1][0]
    return dict(st="cut" if steps.n >= at else "exc", says=[]), []


def cuts(ctx, qs, steps):
    rng = ctx.rng
    _, models, datasets = setup(ctx, nmodels=rng.choice([1, 2]), ndata=rng.choice([1, 2]), splits_=(1, 3, 7), whole=True)
    recs, _ = some_metrics(rng, rng.choice([1, 2, 3])) if rng.random() < 0.6 else some_metrics(rng, 1, ("NDCG",))
    names = [rng.choice([None, None, "mine"]) for _ in recs]
    pool = Things(models, datasets, recs, names)
    pristine = copy.deepcopy((models, datasets))
    before, held = pool.digests(), []
    rec = dict(ev=[])
    last = None
    kin = rng.choice([["evaluate", "perquery"], ["scorer"], ["score", "detailed"], ["score", "detailed", "scorer", "contribution"],
                      ["evaluate", "perquery", "performance"], sorted(qs), sorted(qs)])
    close = rng.random() < 0.7
    for _ in range(steps):
        q, a = rng.choice(kin if rng.random() < (0.9 if close else 0.5) else sorted(qs)), arguments(rng, None, pool, ctx.path("out.txt"))
        if last and rng.random() < 0.2:
            q, a = last
        elif last and rng.random() < (0.9 if close else 0.5):      # about the same things
            a = dict(a, d=last[1]["d"], m=last[1]["m"], s=last[1]["s"])
        last = (q, a)
        cut, fine = rng.random() < 0.5, rng.random() < 0.4
        ctx.mark(dict(history=[[e["op"], e["q"], e["a"]] for e in rec["ev"]], q=q, a=a, cut=cut, fine=fine))
        fresh = Things(*copy.deepcopy(pristine), recs, names)
        places = {}
        if cut:
            s = Steps(lambda n, place: places.setdefault(place, []).append(n), fine)
            try:
                _, want = s(lambda: ask(ctx, qs[q], fresh, a))
            finally:
                count = s.n

            def choose(n):
                if rng.random() < 0.6 and places:
                    at = places[rng.choice(sorted(places))]      # any place in the code is as likely as another
                    return rng.choice([at[0], at[-1], rng.choice(at)])
                return rng.randrange(1, max(2, n + 1))
            got, what = interrupted(ctx, qs[q], pool, a, count, choose, fine, rng.choice([KeyboardInterrupt, MemoryError]))
        else:
            _, want = ask(ctx, qs[q], fresh, a)
            what, got = ask(ctx, qs[q], pool, a)
        now = pool.digests()
        e = dict(op="cut" if cut else "ask", q=q, a={k: v for k, v in a.items() if k != "path"}, got=got, want=want,
                 changed=[k + 1 for k in range(len(now)) if now[k] != before[k]], lost=[h[0] for h in held if form(h[1]) != h[2]])
        rec["ev"].append(e)
        if e["changed"] or e["lost"]:
            break
        for x in what:
            held.append(("answer %d" % len(rec["ev"]), x, form(x)))
    import matplotlib.pyplot as plt
    plt.close("all")
    ctx.emit(rec)


def run(ctx):
    qs = more(questions())
    for k in range(1500 if ctx.thorough else 150):
        cuts(ctx, qs, ctx.rng.choice([6, 9, 12, 15]))
