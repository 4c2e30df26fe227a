"""Histories of questions about pools of models, datasets, metrics and scorers
of which copies are made (copy.deepcopy, copy.copy, pickle of every protocol,
RTEnsemble.copy, another process and back), changed, dropped and made anew;
every answer against the one that things made from scratch give."""
import copy, gc, json, os, pickle, subprocess, sys
from c46 import *


PARTS = ("models", "datasets", "metrics", "scorers")


def parts(p):
    return {k: getattr(p, k) for k in PARTS}


def pool_of(d):
    p = Things.__new__(Things)
    p.__dict__.update(d)
    return p


def said(p):
    """what the things of a pool are, without asking them"""
    return p.digests() + [m.name for m in p.metrics] + [type(x).__name__ for k in PARTS[:3] for x in getattr(p, k)]


# ------------------------------------------------------------ the process
def serve(place):
    """keeps pools; reads a task per line: take FILE, ask N Q FILE, give N FILE"""
    import argparse
    from vlib.child import Ctx
    import matplotlib.pyplot as plt
    ctx = Ctx(argparse.Namespace(tier="quick", seed=1, prop="C51", scratch=place, cases="", out=place + "/o", mark=place + "/m"))
    qs = more(questions())
    kept, out = {}, os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    for line in sys.stdin:
        t = json.loads(line)
        r = dict(ok=1)
        try:
            if t["do"] == "take":
                with open(t["f"], "rb") as f:
                    kept[t["n"]] = pool_of(pickle.load(f))
                r["said"] = said(kept[t["n"]])
            elif t["do"] == "ask":
                r["got"] = ask(ctx, qs[t["q"]], kept[t["n"]], t["a"])[1]
                plt.close("all")
            elif t["do"] == "give":
                with open(t["f"], "wb") as f:
                    pickle.dump(parts(kept.pop(t["n"])), f, t["p"])
        except Exception as x:
            r = dict(ok=0, why="%s: %s" % (type(x).__name__, str(x)[:200]))
        out.write(json.dumps(r) + "\n")
        out.flush()


class Other(object):
    """a process with another hash seed"""
    def __init__(self, ctx):
        self.place = ctx.path("other")
        os.makedirs(self.place, exist_ok=True)
        self.ctx, self.n = ctx, 0
        env = dict(os.environ, PYTHONHASHSEED=str(ctx.rng.randrange(1, 10 ** 6)), PYTHONPATH=os.pathsep.join([p for p in sys.path if p]))
        self.log = open(self.place + "/log", "ab")
        self.p = subprocess.Popen([sys.executable, "-c", "import c51; c51.serve(%r)" % self.place], env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=self.log, universal_newlines=True)

    def do(self, **t):
        try:
            self.p.stdin.write(json.dumps(t) + "\n")
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except OSError:
            line = ""
        return json.loads(line) if line else dict(ok=0, why="the other process died")

    def alive(self):
        return self.p.poll() is None

    def stop(self):
        self.p.stdin.close()
        self.p.wait(60)
        self.p.stdout.close()
        self.log.close()


# ------------------------------------------------------------- the driver
def made(ctx, kind, metrics=False):
    """(models, datasets, recs, names), the same every time for the same kind"""
    state = ctx.rng.getstate()
    ctx.rng.seed(kind["seed"])
    try:
        if not metrics:
            _, models, datasets = setup(ctx, nmodels=kind["nm"], ndata=kind["nd"], splits_=(1, 3, 7), whole=True)
        ctx.rng.seed(kind["seed"] + 1)
        recs, _ = some_metrics(ctx.rng, kind["ns"]) if not kind["gains"] else some_metrics(ctx.rng, kind["ns"], ("NDCG", "DCG")[:kind["ns"]])
        names = [ctx.rng.choice([None, None, "mine"]) for _ in recs]
    finally:
        ctx.rng.setstate(state)
    if metrics:
        return recs
    return Things(models, datasets, recs, names)


def crowd(ctx, kind, other):
    """what makes datasets of a kind and metrics of another, one by one, and gives some, and those that are where something was that is gone"""
    from rankeval.dataset import Dataset
    base, stay = made(ctx, kind), []
    recs = made(ctx, other, metrics=True)

    def dataset(d, q):
        return Dataset(d.X.copy(), d.y.copy(), q, name=d.name)
    qs = [np.repeat(q, np.diff(d.query_offsets)) if len(q) == d.n_queries else q.copy() for d in base.datasets for q in [d.get_qids_dataset()]]

    def make(gone):
        chosen = []
        for k in range(600):
            datasets = [dataset(d, q) for d, q in zip(base.datasets, qs)] if k < 150 else datasets
            ms = [MC.metric(r["name"], r["p"]) for r in recs]
            stay.append((datasets, ms))
            if k < 3 or any(id(x) in gone for x in (datasets if k < 150 else []) + ms):
                chosen.append((datasets, ms))
        return [pool_of(dict(models=base.models, scorers={}, metrics=m, datasets=d)) for d, m in chosen]
    return make


def through(p, how, one):
    """the pool, or each of its things, through a copying function"""
    d = parts(p)
    if one:
        return pool_of(dict({k: [how(x) for x in d[k]] for k in PARTS[:3]}, scorers={k: how(v) for k, v in d["scorers"].items()}))
    return pool_of(how(d))


def history(ctx, qs, other, steps):
    rng = ctx.rng
    nm, nd, ns = rng.choice([1, 2]), rng.choice([1, 2]), rng.choice([1, 2])
    gains, features = rng.random() < 0.5, lambda s: random.Random(s).choice([1, 2, 3])      # the first choice of setup
    kinds = [dict(seed=rng.randrange(2 ** 31), nm=nm, nd=nd, ns=ns, gains=gains) for _ in range(2)]
    while features(kinds[1]["seed"]) != features(kinds[0]["seed"]) and rng.random() < 0.9:
        kinds[1]["seed"] = rng.randrange(2 ** 31)
    path = ctx.path("out.txt")
    pools = [dict(p=made(ctx, kinds[0]), k=0, shares=set())]      # with which other pools it shares its things
    rec = dict(ev=[])
    last = None
    pools[0]["shares"].add(id(pools[0]))
    kin = rng.choice([["evaluate", "evaluate", "evaluate", "performance"], ["evaluate"], ["score", "detailed"], ["scorer"], ["score", "detailed", "compared", "copy"], sorted(qs)])

    def question():
        q, a = rng.choice(kin), arguments(rng, None, pools[0]["p"], path)
        a["cache"] = a["cache"] or rng.random() < 0.5
        if last and rng.random() < 0.5:       # what was asked before, of another copy perhaps
            q, a = last
        elif last and rng.random() < 0.5:
            a = dict(a, d=last[1]["d"], m=last[1]["m"], s=last[1]["s"])
        return q, a

    def told(op, **e):
        rec["ev"].append(dict(e, op=op))

    ops = rng.choice([["ask"] * 6 + ["copy"] * 4 + ["change", "drop", "make"], ["copy"] * 2 + ["change"], ["ask"] * 3 + ["copy"] * 2 + ["drop"]])
    plan, done, gone, members = [], 0, set(), None
    while done < steps or plan:
        done += 1
        if not plan and len(pools) < 6:
            asked = ["ask of it"] * rng.choice([0, 1, 1, 2, 3])
            plan = rng.choice([asked + ["copy", "drop", "crowd", "ask"], asked + ["copy", "change", "ask", "ask"], asked + ["copy", "ask of copy", "ask of copy", "ask of it"],
                               [rng.choice(ops) for _ in range(6)]])[:]
            it, new = rng.choice(pools), None
        op, c = (plan or [rng.choice(ops)])[0], rng.choice(pools)
        plan = plan[1:]
        if op.endswith("of it") or op in ("copy", "drop") or op == "change" and rng.random() < 0.5:
            c = it if it in pools else c
        elif op.endswith("of copy") or op == "crowd":
            c = new if new in pools else c
        mix = rng.random() < (0.2 if " of " in op else 0.5)
        op = op.split()[0]
        ctx.mark(dict(history=[[e["op"], e.get("q", ""), e.get("how", "")] for e in rec["ev"]], op=op))
        if op == "ask":
            q, a = last = question()
            w, p, of = made(ctx, kinds[c["k"]]), c["p"], [pools.index(c)] * 3
            if mix:      # a model, a dataset and a metric of different copies
                mixed = [rng.choice(pools) for _ in of]
                of = [pools.index(x) for x in mixed]
                p = pool_of(dict({k: getattr(x["p"], k) for k, x in zip(PARTS, mixed)}, scorers={}))
                w = pool_of(dict({k: getattr(made(ctx, kinds[x["k"]]), k) for k, x in zip(PARTS, mixed)}, scorers={}))
                del mixed
            _, want = ask(ctx, qs[q], w, a)
            _, got = ask(ctx, qs[q], p, a)
            del w, p
            told("ask", q=q, a={k: v for k, v in a.items() if k != "path"}, of=of, got=got, want=want)
        elif op == "copy" and len(pools) < 6:
            how = rng.choice(["deepcopy", "deepcopy", "pickle", "pickle", "own", "shallow", "process", "process"])
            one, proto = rng.random() < 0.4, rng.choice([0, 1, 2, 3, 4, 5])
            before = said(c["p"])
            e = dict(how="%s %d%s" % (how, proto, " each" if one else ""), of=pools.index(c), differ=[], why="", got=[], want=[])
            if how == "process" and not other.alive():
                raise RuntimeError("the other process has ended")
            if how == "process":
                other.n += 1
                f = other.place + "/pool"

                def away():
                    with open(f, "wb") as g:
                        pickle.dump(parts(c["p"]), g, proto)
                    r = other.do(do="take", n=other.n, f=f)
                    assert r["ok"], r
                    e["differ"] += [k + 1 for k in range(len(before)) if json.loads(json.dumps(before))[k] != r["said"][k]]
                    for _ in range(rng.choice([0, 1, 2])):
                        q, a = question()
                        _, want = ask(ctx, qs[q], made(ctx, kinds[c["k"]]), a)
                        r = other.do(do="ask", n=other.n, q=q, a=a)
                        assert r["ok"], r
                        e["got"].append(r["got"])
                        e["want"].append(want)
                    r = other.do(do="give", n=other.n, f=f, p=proto)
                    assert r["ok"], r
                    with open(f, "rb") as g:
                        return pool_of(pickle.load(g))
                ok, new = ctx.call(away)
            else:
                f = {"deepcopy": copy.deepcopy, "shallow": copy.copy, "pickle": lambda x: pickle.loads(pickle.dumps(x, proto)),
                     "own": lambda x: x.copy() if hasattr(x, "trees_root") else copy.deepcopy(x)}[how]
                ok, new = ctx.call(lambda: through(c["p"], f, one or how in ("own", "shallow")))
            if not ok:
                e["why"] = "%s: %s" % (new, str(ctx.last_exc)[:300])
            else:
                now = said(new)
                e["differ"] += [k + 1 for k in range(len(before)) if before[k] != now[k]] + [-k - 1 for k, x in enumerate(said(c["p"])) if before[k] != x]
                e["differ"] += [100 + k for k, (x, y) in enumerate(zip(c["p"].datasets, new.datasets)) if hash(x) != hash(y) or (x == y) != (x == x) or (x != y) == (x == x)]
                n = dict(p=new, k=c["k"], shares=c["shares"] if how == "shallow" else set())
                n["shares"].add(id(n))
                pools.append(n)
                new = n
                n = None
            told("copy", **e)
        elif op == "crowd" and members:
            q, a = rng.choice(["score", "evaluate", "detailed"]), dict(arguments(rng, None, pools[0]["p"], path), cache=rng.random() < 0.8)
            if last and last[0] in ("evaluate", "performance", "perquery") and rng.random() < 0.8:
                q = "evaluate"
            k, j = members[0]
            w = made(ctx, kinds[k])
            w.metrics = [MC.metric(r["name"], r["p"]) for r in made(ctx, kinds[j], metrics=True)]
            if q == "evaluate" and last and rng.random() < 0.7:
                a = dict(last[1], cache=a["cache"])
            _, want = ask(ctx, qs[q], pool_of(dict(parts(w), models=made(ctx, kinds[c["k"]]).models)), a)
            e = dict(q=q, a={x: v for x, v in a.items() if x != "path"}, got=[], want=[])
            w = None
            for m in members[1]:
                _, got = ask(ctx, qs[q], pool_of(dict(parts(m), models=c["p"].models)), a)
                if got not in e["got"]:
                    e["got"].append(got)
                    e["want"].append(want)
            q, a = last or (q, a)       # and its own things again
            _, want = ask(ctx, qs[q], made(ctx, kinds[c["k"]]), a)
            _, got = ask(ctx, qs[q], c["p"], a)
            e["got"].append(got)
            e["want"].append(want)
            m = members = None
            told("crowd", **e)
        elif op in ("change", "drop") and len(pools) > 1 and (op == "drop" or len(c["shares"]) == 1):
            rest = [x for x in pools if x is not c]
            which = rng.choice([(c["k"], 1 - c["k"]), (1 - c["k"], c["k"]), (1 - c["k"], 1 - c["k"])])
            many = crowd(ctx, *[kinds[k] for k in which]) if plan[:1] == ["crowd"] else None
            before = [said(x["p"]) for x in rest]
            p = c["p"]
            if op == "change":
                what = rng.sample(["values", "weights", "features", "children", "labels", "rows", "name", "metric", "given", "scored"], rng.choice([1, 3, 10]))
                for m in p.models:
                    if "values" in what:
                        m.trees_nodes_value *= -2
                        m.trees_nodes_value += 1
                    if "weights" in what:
                        m.trees_weight[...] = 3
                    if "given" in what:      # the arrays that were given as answers
                        for d in p.datasets:
                            _, ys = ctx.call(lambda: m.score(d, detailed=True, cache=True) + (m.score(d, cache=True),))
                            for y in ys if isinstance(ys, tuple) else ():
                                if y.flags.writeable:
                                    y[...] = 77
                    if "features" in what:
                        m.trees_nodes_feature[...] = -1
                    if "children" in what:
                        m.trees_left_child[...] = -1
                        m.trees_right_child[...] = -1
                        m.trees_root[...] = 0
                for d in p.datasets:
                    if "labels" in what:
                        d.y[...] = d.y[::-1].copy()
                        d.y[0] += 1
                    if "rows" in what:
                        d.X[...] = 0
                if "name" in what:
                    for x in p.models + p.datasets + p.metrics:
                        x.name = "other"
                if "metric" in what:
                    for s in p.metrics:
                        if getattr(s, "cutoff", None) is not None:
                            s.cutoff += 1
                if "scored" in what:
                    for s in p.scorers.values():
                        for k in ("y_pred", "partial_y_pred", "out_leaves"):
                            setattr(s, k, None)
            else:
                what = []
            kind, it, new = c["k"], None if it is c else it, None if new is c else new
            pools[:] = rest
            for x in rest:
                x["shares"].discard(id(c))
            gone.update(id(x) for k in PARTS[:3] for x in getattr(p, k))
            del c, p
            ctx.last_exc = x = m = d = s = _ = ys = None
            gc.collect()
            members = (which, many(gone)) if many else None
            told(op, k=kind, what=what, touched=[k + 1 for k, x in enumerate(rest) if said(x["p"]) != before[k]])
        elif op == "make" and len(pools) < 6:
            k = 1 - rec["ev"][-1].get("k", 1) if rec["ev"] else 1
            n = dict(p=made(ctx, kinds[k]), k=k, shares=set())
            n["shares"].add(id(n))
            pools.append(n)
            told("make", k=1 - k)
    import matplotlib.pyplot as plt
    plt.close("all")
    ctx.emit(rec)


def run(ctx):
    qs = more(questions())
    other = Other(ctx)
    try:
        for k in range(1200 if ctx.thorough else 130):
            if k % 50 == 49:
                other.stop()
                other = Other(ctx)
            history(ctx, qs, other, ctx.rng.choice([8, 14, 20, 26]))
    finally:
        other.stop()
