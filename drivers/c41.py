"""The catalogue the repository writes, served to the fetcher together with
archives laid out like the public ones."""
import json, os, shutil, subprocess, sys, tempfile
from c29 import *

PUBLIC = [dict(name="istella-full", folds=0, vali=False, license=True, licence="istella-letor-LA.txt", sub="full/", d="istella-letor", m="istella-letor-models"),
          dict(name="istella-sample", folds=0, vali=True, license=True, licence="istella-letor-LA.txt", sub="sample/", d="istella-s-letor", m="istella-s-letor-models"),
          dict(name="msn10k", folds=5, vali=True, license=False, sub="", d="msn10k", m="msn10k-models"),
          dict(name="msn30k", folds=5, vali=True, license=False, sub="", d="msn30k", m="msn30k-models")]


def write(where):
    """the text of the catalogue, and whether it is all that was written"""
    os.mkdir(where)
    subprocess.run([sys.executable, "-m", "rankeval.dataset.write_json_dataset_catalogue"], cwd=where, check=True, timeout=120,
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    files = os.listdir(where)
    with open(os.path.join(where, "dataset_dictionary.json" if "dataset_dictionary.json" in files else files[0])) as f:
        return f.read(), files == ["dataset_dictionary.json"]


def run(ctx):
    import rankeval.dataset.datasets_fetcher  # noqa: before the children lose their privileges
    rng = ctx.rng
    area = os.path.realpath(tempfile.mkdtemp(prefix="verif-c41-"))
    os.chmod(area, 0o755)
    last = lambda url: str(url).split("/")[-1]

    def written():
        (text, alone), (text2, _) = write(os.path.join(area, "w1")), write(os.path.join(area, "w2"))
        entries = []
        for key, e in json.loads(text).items():
            entries.append(dict(key=key, name=str(e.get("DATASET_NAME")), d=last(e.get("DATASET_URL")), m=last(e.get("MODELS_URL"))))
        return text, dict(op="catalogue", st="ok", entries=entries, again=json.loads(text) == json.loads(text2), alone=alone)

    def history(calls):
        """calls: (index in PUBLIC or -1, fold, dl, force, models, fault, bump, default)"""
        nver = 1 + sum(1 for c in calls if c[6])
        pub, arch = [], {}
        for k in PUBLIC:
            vs = [publish(rng, k, v, False) for v in range(1, nver + 1)]
            pub.append([v[0] for v in vs])
            arch[k["name"]] = [v[1:] for v in vs]
        home = tempfile.mkdtemp(dir=area)
        if os.geteuid() == 0:
            os.chown(home, NOBODY, NOBODY)
        world = World(PUBLIC, arch, home)
        world.catalogue = text
        world.terms = {k["name"]: "https://www.microsoft.com/en-us/research/project/mslr" for k in PUBLIC if not k["license"]}
        # the archives are where the catalogue says, by the names they have
        world.where = {}
        for e in json.loads(text).values():
            for field, part in (("DATASET_URL", "d"), ("MODELS_URL", "m")):
                for k in PUBLIC:
                    if last(e.get(field)) in (k["d"] + ".tar.gz", k["m"] + ".tar.gz"):
                        world.where[e.get(field)] = (k["name"], "d" if last(e.get(field)) == k["d"] + ".tar.gz" else "m")
        ver, events = 1, []
        for ds, fold, dl, force, models, fault, bump, default in calls:
            ver += bool(bump)
            events.append(dict(ds=ds + 1, name=PUBLIC[ds]["name"] if ds >= 0 else rng.choice(["istella", "msn", "MSN10K", "", "istella-letor"]), fold=fold,
                               dl=dl, force=force, models=models, ver=ver, fault=fault, default=default))
        ctx.mark(dict(calls=calls))
        try:
            res = execute(ctx, world, events, dict(HOME=home, RANKEVAL_DATA=home))
        finally:
            shutil.rmtree(home)
        ev = [dict(e, op="fetch" if e["ds"] > 0 else "unknown", **dict(r, cause=e["fault"][0].split()[0], fault="%s %d" % tuple(e["fault"]))) for e, r in zip(events, res)]
        ctx.emit(dict(cat=[dict(folds=k["folds"], vali=k["vali"], license=k["license"]) for k in PUBLIC], pub=pub, ev=[cat] + ev))

    NO = ("none", 0)
    try:
        ok, v = ctx.call(written)
        if not ok:
            ctx.emit(dict(cat=[], pub=[], ev=[dict(op="catalogue", st="exc", exc=v)]))
            return
        text, cat = v
        # every dataset, every fold
        for ds, k in enumerate(PUBLIC):
            for fold in range(0, 7):
                history([(ds, fold, True, False, rng.random() < 0.7, NO, False, True)])
        # every ordered pair of datasets
        for a in range(4):
            for b in range(4):
                fold = lambda k: rng.randrange(1, 6) if PUBLIC[k]["folds"] else 0
                history([(a, fold(a), True, False, True, NO, False, True), (b, fold(b), True, rng.random() < 0.5, True, NO, True, True),
                         (a, fold(a), False, False, True, NO, True, False), (b, fold(b), False, False, True, NO, False, False)])
        for _ in range(300 if ctx.thorough else 40):
            calls = []
            for _ in range(rng.randrange(2, 8)):
                ds = rng.randrange(4) if rng.random() < 0.93 else -1
                fold = rng.randrange(1, 6) if ds >= 0 and PUBLIC[ds]["folds"] else 0
                fault = (rng.choice(["refuse", "short", "reset"]) + " " + rng.choice("dm"), rng.randrange(100000)) if rng.random() < 0.15 else NO
                calls.append((ds, fold if rng.random() < 0.93 else rng.randrange(8), rng.random() < 0.8, rng.random() < 0.25, rng.random() < 0.7,
                              fault, rng.random() < 0.4, rng.random() < 0.5))
            history(calls)
    finally:
        shutil.rmtree(area)
