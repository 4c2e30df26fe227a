"""The same history of questions in processes whose surroundings differ: other
locales, hash seeds, numbers of threads and encodings from the start, and
working directories, print options, random states, precisions, masks and styles
that change on the way. Answers against those of a process with usual
surroundings; the surroundings after each question against those before."""
import argparse, copy, decimal, gc, hashlib, json, locale, os, random, subprocess, sys, tempfile, threading, warnings

LOCALES = [("de_DE", "UTF-8"), ("de_DE", "ISO-8859-1"), ("tr_TR", "UTF-8")]


# ------------------------------------------------------------ the process
def opened():
    """how many files are open, without the fonts matplotlib keeps"""
    n = 0
    for k in os.listdir("/proc/self/fd"):
        try:
            n += not os.readlink("/proc/self/fd/" + k).endswith((".ttf", ".afm", ".otf"))
        except OSError:
            pass
    return n


def surroundings():
    import numpy as np
    import matplotlib
    h = lambda x: hashlib.md5(repr(x).encode("utf-8", "replace")).hexdigest()
    s = np.random.get_state()
    mask = os.umask(0)
    os.umask(mask)
    return dict(numpy_random=h((s[0], s[1].tobytes(), s[2:])), random=h(random.getstate()), errors=h(sorted(np.geterr().items())),
                printing=h(sorted(np.get_printoptions().items(), key=str)), filters=h([str(f) for f in warnings.filters]), directory=os.getcwd(),
                environment=h(sorted(os.environ.items())), locale=locale.setlocale(locale.LC_ALL), style=h(sorted((k, str(v)) for k, v in matplotlib.rcParams.items())),
                backend=matplotlib.get_backend(), threads=threading.active_count(), recursion=sys.getrecursionlimit(), path=h(sys.path), descriptors=opened(),
                out=h((id(sys.stdout), id(sys.stderr))), hooks=h([id(x) for x in (sys.excepthook, sys.displayhook)]), mask=mask, precision=decimal.getcontext().prec,
                bars=sum(b.open for b in BARS), collecting=gc.isenabled(), temporary=h(sorted(os.listdir(tempfile.gettempdir()))), here=h(sorted(os.listdir("."))),
                children=h(sorted(open("/proc/self/task/%d/children" % os.getpid()).read().split()) if os.path.exists("/proc/self/task/%d/children" % os.getpid()) else []))


def change(rng, place):
    """one thing about the surroundings becomes different; what it was"""
    import numpy as np
    import matplotlib
    what = rng.choice(["locale", "directory", "printing", "seed", "seed", "precision", "mask", "style", "errors", "collecting", "environment"])
    if what == "locale":
        locale.setlocale(locale.LC_ALL, rng.choice(["%s.%s" % l for l in LOCALES] + ["C"]))
    elif what == "directory":
        os.chdir(tempfile.mkdtemp(dir=place))
    elif what == "printing":
        np.set_printoptions(precision=rng.choice([1, 3, 12]), suppress=rng.random() < 0.5, threshold=rng.choice([2, 1000]), floatmode=rng.choice(["fixed", "unique", "maxprec"]))
    elif what == "seed":
        np.random.seed(rng.randrange(2 ** 31))
        random.seed(rng.randrange(2 ** 31))
    elif what == "precision":
        decimal.getcontext().prec = rng.choice([2, 28, 60])
    elif what == "mask":
        os.umask(rng.choice([0o22, 0o77, 0o27]))
    elif what == "style":
        matplotlib.rcParams.update({"lines.linewidth": rng.choice([1, 3]), "figure.dpi": rng.choice([50, 100]), "axes.grid": rng.random() < 0.5, "axes.axisbelow": rng.random() < 0.5})
    elif what == "errors":
        np.seterr(all=rng.choice(["ignore", "warn"]))
    elif what == "collecting":
        (gc.disable if gc.isenabled() else gc.enable)()
    elif what == "environment":
        os.environ[rng.choice(["TZ", "LANG", "LC_NUMERIC", "HOME", "RANKEVAL_HOME"])] = rng.choice(["", "de_DE.UTF-8", "Asia/Tokyo", place])
    return what


BARS = []


def notebook():
    """what a program in a notebook finds: a shell of another kind, and widgets"""
    import types

    class ZMQInteractiveShell(object):
        events = types.SimpleNamespace(register=lambda *a: None, unregister=lambda *a: None)

    class IntProgress(object):
        def __init__(self, value=0, min=0, max=100, description="", **kw):
            self.__dict__.update(min=int(min), max=int(max), description=str(description), open=True, bar_style="", value=int(value))
            BARS.append(self)

        def __setattr__(self, k, v):
            if k in ("value", "min", "max"):
                v = int(v)
            if k == "value":
                v = min(max(v, self.min), self.max)
            self.__dict__[k] = v

        def close(self):
            self.open = False
    shell = ZMQInteractiveShell()
    i, d, w = [types.ModuleType(n) for n in ("IPython", "IPython.display", "ipywidgets")]
    i.get_ipython, i.version_info, i.display = (lambda: shell), (8, 30, 0, ""), d
    d.display = lambda *a, **k: None
    w.IntProgress = IntProgress
    sys.modules.update({"IPython": i, "IPython.display": d, "ipywidgets": w})


def child(seed, steps, varied, place, out):
    if os.environ.get("IN_NOTEBOOK"):
        notebook()
    from vlib.child import Ctx
    import c46
    import numpy as np
    import matplotlib.pyplot as plt
    try:
        import coremltools          # which sets variables of its own
    except ImportError:
        pass
    os.makedirs(place + "/tmp")
    tempfile.tempdir = place + "/tmp"
    os.chdir(place)
    ctx = Ctx(argparse.Namespace(tier="quick", seed=seed, prop="C49", scratch=place, cases="", out=place + "/o", mark=place + "/m"))
    rng = random.Random(varied)
    qs = c46.more(c46.questions())

    def kfold(p, a):
        d = p.datasets[a["d"][0]]
        if d.n_queries < 2:
            return [np.zeros(0)]
        return [np.asarray(x, dtype=np.float64) for f in d.kfold(n_folds=2, qids_only=True, shuffle=False) for x in f]

    def seeded(p, a):
        d = p.datasets[a["d"][0]]
        if d.n_queries < 3:
            return [np.zeros(0)]
        return [np.asarray(x.get_qids_dataset()) for x in d.split(train_size=0.4, vali_size=0.3, random_state=a["seed"])]

    def again(p, a):
        from rankeval.model import RTEnsemble
        from rankeval.dataset import Dataset
        m, d = p.models[a["m"][0]], p.datasets[a["d"][0]]
        name = "it-%d" % a["step"] if a["flag"] else os.path.abspath("it-%d" % a["step"])       # relative, or not
        try:
            fmt = ["QuickRank", "LightGBM"][a["seed"] % 2]
            m.save(name, format=fmt)
            x = RTEnsemble(name, format=fmt, name="again")
            d.dump(name)
            y = Dataset.load(name, name="again")
        finally:
            if os.path.exists(name):
                os.remove(name)
        return [x.score(d), np.asarray(x.trees_nodes_value), y.X, y.y]

    def named(p, a):
        from rankeval.visualization.topological import export_graphviz
        name = "drawing"
        try:
            export_graphviz(p.models[a["m"][0]], out_file=name, feature_names=[u"gr\u00f6\u00dfe \u0131\u4e2d %d" % k for k in range(8)], label_show=False, precision=a["step"])
            with open(name, "rb") as f:
                return [f.read().decode("latin-1")]
        finally:
            if os.path.exists(name):
                os.remove(name)

    def light(p, a):
        """a model whose features have names"""
        from rankeval.model import RTEnsemble
        name = "named"
        with open(name, "wb") as f:
            f.write(LIGHT.encode("utf-8"))
        try:
            x = RTEnsemble(name, format="LightGBM", name="mine")
        finally:
            os.remove(name)
        return [x.score(p.datasets[a["d"][0]]) if p.datasets[a["d"][0]].n_features > 1 else np.zeros(0), np.asarray(x.trees_nodes_value)]

    def formats(p, a):
        """a model of any format"""
        own = copy.copy(ctx)
        own.rng = random.Random(a["seed"])
        own.path = lambda n: os.path.join(place, "formats-" + n)
        try:
            x = c46.random_model(own, a["flag"], 2, n=3)[0]
        finally:
            for n in os.listdir(place):
                if n.startswith("formats-"):
                    os.remove(os.path.join(place, n))
        return [x.trees_root, x.trees_nodes_value, x.trees_nodes_feature, x.trees_left_child, x.trees_right_child, x.trees_weight, np.asarray([float(x.base_score or 0)])]
    qs.update(kfold=kfold, seeded=seeded, again=again, named=named, light=light, formats=formats)
    res = []
    start = surroundings()
    _, models, datasets = c46.setup(ctx, nmodels=2, ndata=2, splits_=(1, 3, 7), whole=True)
    recs, _ = c46.some_metrics(ctx.rng, 2)
    pool = c46.Things(models, datasets, recs, [None, None])
    hide = lambda s: s.replace(place, "").replace(os.path.basename(place), "")
    # how the models were read
    res.append(dict(q="read", a={}, set=[], changed=[], got=dict(st="ok", says=[c46.form(x) for m in models for x in (m.trees_nodes_value, m.trees_weight, m.trees_left_child)])))
    for _ in range(steps):
        q, a = ctx.rng.choice(sorted(qs)), c46.arguments(ctx.rng, None, pool, place + "/out.txt")
        done = [change(rng, place) for _ in range(rng.choice([0, 1, 2]))] if varied else []
        open(place + "/out.txt", "a").close()
        plt.close("all")
        before = surroundings()
        _, got = c46.ask(ctx, qs[q], pool, a)
        plt.close("all")
        after = surroundings()
        got = json.loads(hide(json.dumps(got)))
        res.append(dict(q=q, a={k: v for k, v in a.items() if k != "path"}, set=done, got=got, changed=sorted(k for k in before if before[k] != after[k])))
        if any(not c.endswith("random") for c in res[-1]["changed"]):
            break
    with open(out, "w") as f:
        json.dump(res, f)


LIGHT = u"""tree
version=v3
num_class=1
num_tree_per_iteration=1
max_feature_idx=1
objective=regression
feature_names=gr\u00f6\u00dfe_\u00e0 \u4e2d\u6587\u0131

Tree=0
num_leaves=2
split_feature=0
threshold=0.25
decision_type=2
left_child=-1
right_child=-2
leaf_value=1.5 -2
shrinkage=0.5


end of trees
"""


# ------------------------------------------------------------- the driver
def run(ctx):
    rng = ctx.rng
    where = ctx.path("locales")
    os.makedirs(where)
    for l, e in LOCALES:
        subprocess.run(["localedef", "--no-archive", "-i", l, "-f", e, "%s/%s.%s" % (where, l, e)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    usual = dict(PYTHONHASHSEED="0", LC_ALL="C.UTF-8", MPLBACKEND="Agg", LOCPATH=where)
    kinds = [dict(LC_ALL="de_DE.UTF-8", PYTHONHASHSEED="1"), dict(LC_ALL="de_DE.ISO-8859-1", PYTHONHASHSEED="2", PYTHONUTF8="0", PYTHONCOERCECLOCALE="0"),
             dict(LC_ALL="C", PYTHONUTF8="0", PYTHONCOERCECLOCALE="0", OMP_NUM_THREADS="1"), dict(OMP_NUM_THREADS="3", PYTHONHASHSEED="77", MPLBACKEND="svg"),
             dict(LC_ALL="tr_TR.UTF-8", PYTHONOPTIMIZE="1", TZ="Asia/Tokyo"), dict(PYTHONHASHSEED="random", PYTHONMALLOC="debug", MPLBACKEND="pdf"),
             dict(IN_NOTEBOOK="1")]
    rounds = 20 if ctx.thorough else 4
    jobs = []
    for k in range(rounds):
        seed = rng.randrange(2 ** 31)
        for j, env in enumerate([{}] + kinds):
            jobs.append((k, j, seed, dict(usual, **env)))
    running, results = [], {}
    ctx.mark(dict(jobs=len(jobs)))

    def start(k, j, seed, env):
        place, out = ctx.path("p%d-%d" % (k, j)), ctx.path("r%d-%d.json" % (k, j))
        code = "import c49; c49.child(%d, %d, %d, %r, %r)" % (seed, 60, j and seed + j, place, out)
        e = {x: y for x, y in os.environ.items() if not x.startswith(("LC_", "LANG", "OMP_"))}
        e.update(env)
        e["PYTHONPATH"] = os.pathsep.join([p for p in sys.path if p])
        log = open(ctx.path("log%d-%d" % (k, j)), "wb")
        return (k, j, env, out, subprocess.Popen([sys.executable, "-c", code], env=e, stdout=log, stderr=log))

    def finish(job):
        k, j, env, out, p = job
        try:
            rc = p.wait(600)
        except subprocess.TimeoutExpired:
            p.kill()
            rc = -1
        if rc == 0 and os.path.exists(out):
            with open(out) as f:
                return env, json.load(f)
        with open(ctx.path("log%d-%d" % (k, j)), "rb") as f:
            return env, "died %s: %s" % (rc, f.read()[-500:].decode("latin-1"))
    for job in jobs:
        while len(running) >= 6:
            r = running.pop(0)
            results[r[:2]] = finish(r)
        running.append(start(*job))
    for r in running:
        results[r[:2]] = finish(r)
    for k in range(rounds):
        _, base = results[k, 0]
        for j in range(len(kinds) + 1):
            env, mine = results[k, j]
            rec = dict(ev=[], env={x: y for x, y in env.items() if x != "LOCPATH"})
            if isinstance(mine, str) or isinstance(base, str):
                rec["ev"].append(dict(op="died", why=(mine if isinstance(mine, str) else base)))
            else:
                for e, w in zip(mine, base):
                    rec["ev"].append(dict(e, op="ask", want=w["got"]))
            ctx.emit(rec)
