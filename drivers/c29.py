"""Histories of fetches over one data home: a stand-in for the web inside
urllib, every combination of options, and failures at every point.

The library deletes folders here, so every call runs in a child process of an
unprivileged user that owns nothing but its scratch folder; an audit hook
refuses whatever it would change elsewhere."""
import io, json, os, resource, shutil, signal, sys, tarfile, tempfile, urllib.error, urllib.request, urllib.response, email.message

from vlib.child import enc, encs, encm

NOBODY = 65534
DEFAULT = "~/rankeval_data"    # also when the environment names no folder
SITE = "http://data.example/"
KINDS = [dict(name="alpha", folds=0, vali=True, license=True, sub="sample/"),
         dict(name="beta", folds=0, vali=False, license=True, sub="full/", none="None"),
         dict(name="gamma", folds=0, vali=False, license=False, sub=""),
         dict(name="delta", folds=2, vali=True, license=False, sub=""),
         dict(name="epsilon", folds=3, vali=False, license=True, sub="", none="None")]


def publish(rng, kind, ver, big):
    """what version ver of a dataset holds: (for the specification, dataset archive, models archive)"""
    files, mfiles, folds = [], [], []
    lic = "licence %d of %s\nline two\n" % (ver, kind["name"])
    for fold in range(1, max(1, kind["folds"]) + 1):
        rec = dict()
        where = ("Fold%d/" % fold) if kind["folds"] else kind["sub"]
        for k, part in enumerate(("train", "test", "vali")):
            if part == "vali" and not kind["vali"]:
                continue
            n, q, y, X, text = rng.randrange(1, 7) + (60 if big else 0), [], [], [], []
            cur = rng.randrange(1, 50)
            for d in range(n):
                cur += rng.random() < 0.4
                lab = rng.randrange(5)
                row = [ver, fold * 10 + k] + [rng.randrange(1, 4000) / 8.0 for _ in range(3)]
                q.append(cur), y.append(enc(lab)), X.append(encs(row))
                text.append("%d qid:%d %s\n" % (lab, cur, " ".join("%d:%r" % (j + 1, v) for j, v in enumerate(row))))
            rec[part] = dict(n=n, X=X, y=y, q=q)
            files.append((where + part + ".txt", "".join(text).encode()))
        rec["models"] = []
        for j in range(rng.randrange(1, 4)):
            name, text = "model%d.%d.txt" % (j, fold), "model %d of version %d, fold %d %s" % (j, ver, fold, "x" * (2000 if big else 5))
            mfiles.append((("Fold%d/" % fold if kind["folds"] else rng.choice(["", "quickrank/"])) + name, text.encode()))
            rec["models"].append([name, text])
        folds.append(rec)
    if kind["license"]:
        files.append((kind.get("licence", "licence.txt"), lic.encode()))
    if rng.random() < 0.5:
        rng.shuffle(files)

    def pack(fs):
        b = io.BytesIO()
        with tarfile.open(fileobj=b, mode="w:gz", compresslevel=rng.choice([1, 9])) as t:
            for name, data in fs:
                ti = tarfile.TarInfo(name)
                ti.size, ti.mode, ti.mtime = len(data), 0o644, 1500000000
                t.addfile(ti, io.BytesIO(data))
        return b.getvalue()
    size = lambda fs: sum(len(data) for _, data in fs)
    return dict(folds=folds, lic=lic, bytes=dict(d=size(files), m=size(mfiles))), pack(files), pack(mfiles)


def spoil(data, kind, at, home, other):
    """the archive with a member that would be written somewhere else"""
    out = io.BytesIO()
    with tarfile.open(fileobj=io.BytesIO(data), mode="r:gz") as src, tarfile.open(fileobj=out, mode="w:gz") as t:
        members = src.getmembers()
        evil = []
        if kind == "link":
            ti = tarfile.TarInfo("link")
            ti.type, ti.linkname = tarfile.SYMTYPE, ("../../..", "/", home, "../../" + other)[at % 4]
            evil.append((ti, None))
            ti = tarfile.TarInfo("link/%s.txt" % ("dataset/train", "evil")[at // 4 % 2])
        elif kind == "absolute":
            ti = tarfile.TarInfo(os.path.join(os.path.dirname(home), "evil.txt"))
        else:
            ti = tarfile.TarInfo("../" * (1 + at % 5) + ("evil.txt", other + "/dataset/train.txt", "x/evil.txt")[at // 5 % 3])
        ti.size, ti.mode = 4, 0o644
        evil.append((ti, b"evil"))
        members.insert(at % (len(members) + 1), None)
        for m in members:
            if m is not None:
                t.addfile(m, src.extractfile(m))
                continue
            for ti, text in evil:
                t.addfile(ti, io.BytesIO(text) if text else None)
    return out.getvalue()


def entry(kind):
    e = dict(DATASET_NAME=kind["name"], DATASET_ARCHIVE_NAME=kind["name"] + ".tar.gz", MODELS_ARCHIVE_NAME=kind["name"] + "-models.tar.gz",
             DATASET_URL=SITE + kind["name"] + "/d", MODELS_URL=SITE + kind["name"] + "/m", BLOG_POST_URL=SITE + "blog",
             TRAIN_FILE=kind["sub"] + "train.txt", TEST_FILE=kind["sub"] + "test.txt", DATASET_FORMAT="svmlight")
    if kind["vali"]:
        e["VALIDATION_FILE"] = kind["sub"] + "vali.txt"
    elif "none" in kind:
        e["VALIDATION_FILE"] = kind["none"]
    if kind["license"]:
        e["LICENSE_FILE"] = "licence.txt"
    if kind["folds"]:
        e["COMMON_SUBFOLDER_NAME"] = "Fold"
    return e


class Body(io.BytesIO):
    """a response body that breaks after some bytes"""
    def __init__(self, data, keep, exc):
        io.BytesIO.__init__(self, data)
        self.keep, self.exc = keep, exc

    def read(self, n=-1):
        if n is None or n < 0 or self.tell() + n > self.keep:
            raise self.exc
        return io.BytesIO.read(self, n)
    read1 = read

    def readinto(self, b):
        data = self.read(len(b))
        b[:len(data)] = data
        return len(data)


class Web(urllib.request.BaseHandler):
    """answers every http request from memory"""
    def __init__(self, world):
        self.w = world

    def http_open(self, req):
        url = req.full_url
        if url.endswith("dataset_dictionary.json"):
            return self.reply(url, io.BytesIO(self.w.catalogue.encode()))
        what = [self.w.where[url]] if url in self.w.where else []
        if not what:
            raise urllib.error.HTTPError(url, 404, "not found", None, None)
        name, part = what[0]
        self.w.urls.append(part)
        data = self.w.archives[name][self.w.ver - 1]["dm".index(part)]
        kind, at = self.w.fault
        if kind.endswith(" " + part):
            self.w.hit = True
            kind = kind[:-2]
            cut = 1 + at % (len(data) - 1)
            if kind == "refuse":
                raise urllib.error.URLError("refused")
            if kind == "gone":
                raise urllib.error.HTTPError(url, 404, "not found", None, None)
            if kind == "short":
                data = data[:cut]
            elif kind in ("up", "absolute", "link"):
                data = spoil(data, kind, at, self.w.home, [n for n in self.w.names + ["other"] if n != name][0])
            elif kind == "garbage":
                data = b"<html>sorry</html>"
            elif kind == "reset":
                return self.reply(url, Body(data, cut, ConnectionResetError("reset")))
            elif kind == "interrupt":
                return self.reply(url, Body(data, cut, KeyboardInterrupt()))
            elif kind == "kill":
                os.kill(os.getpid(), signal.SIGKILL)
        return self.reply(url, io.BytesIO(data))
    https_open = http_open

    def reply(self, url, body):
        r = urllib.response.addinfourl(body, email.message.Message(), url, 200)
        r.msg = "OK"
        return r


CHANGES = {"os.mkdir", "os.rename", "os.remove", "os.rmdir", "os.link", "os.symlink", "os.truncate", "os.chmod", "os.chown", "os.utime"}


class World(object):
    def __init__(self, kinds, archives, home):
        self.names = [k["name"] for k in kinds]
        self.catalogue = json.dumps({k["name"]: entry(k) for k in kinds})
        self.where = {SITE + n + "/" + p: (n, p) for n in self.names for p in "dm"}    # what is published under which address
        self.archives, self.home, self.terms = archives, home, {}
        self.urls, self.fault, self.ver, self.hit, self.count, self.armed = [], ("none", 0), 1, False, 0, False
        self.outside, self.foreign = False, []

    def hook(self, event, args):
        if not self.armed:
            return
        if event == "open":
            path, mode, flags = args
            if not isinstance(flags, int) or not flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC):
                return
            if not isinstance(path, (str, bytes)):
                return
        elif event not in CHANGES:
            return
        for p in args[1:2] if event == "os.symlink" else args[:2 if event in ("os.rename", "os.link") else 1]:
            if isinstance(p, bytes):
                p = os.fsdecode(p)
            if not isinstance(p, str) or p == os.devnull:
                continue
            # what a symbolic link leads to is what would change
            p = os.path.join(os.path.realpath(os.path.dirname(p) or "."), os.path.basename(p)) if event != "open" else os.path.realpath(p)
            p = os.path.normpath(p)
            if not (p + "/").startswith(self.home + "/") or any((p + "/").startswith(f + "/") for f in self.foreign):
                self.outside = True
                raise PermissionError("outside the folder of the dataset: " + p)
        self.count += 1
        kind, at = self.fault
        if kind in ("die", "stop", "fail") and self.count == at + 1:
            self.hit = True
            if kind == "die":
                os.kill(os.getpid(), signal.SIGKILL)
            if kind == "stop":
                raise KeyboardInterrupt
            raise OSError(28, "no space left")


def dataset(d):
    if d is None:
        return dict(n=0)
    return dict(n=int(d.n_instances), X=encm(d.X), y=encs(d.y), q=[int(v) for v in d.get_qids_dataset()])


def used(folder):
    """bytes in files"""
    return sum(os.lstat(os.path.join(r, f)).st_size for r, _, fs in os.walk(folder) for f in fs)


def child(world, events, start, pipe, env):
    """execute the events from start on, one line of result each"""
    if os.geteuid() == 0:
        os.setgroups([])
        os.setgid(NOBODY)
        os.setuid(NOBODY)
    os.environ.update(env)
    if env["RANKEVAL_DATA"] == DEFAULT and len(events) % 2:
        del os.environ["RANKEVAL_DATA"]
    os.chdir(world.home)
    tempfile.tempdir = world.home
    sys.stdout = open(os.devnull, "w")
    urllib.request.install_opener(urllib.request.OpenerDirector())
    urllib.request._opener.add_handler(Web(world))
    urllib.request._opener.add_handler(urllib.request.HTTPErrorProcessor())
    from rankeval.dataset.datasets_fetcher import load_dataset
    sys.addaudithook(world.hook)
    for e in events[start:]:
        world.urls, world.fault, world.ver, world.hit, world.count = [], tuple(e["fault"]), e["ver"], False, 0
        full = world.fault[0] == "full"
        if full:
            resource.setrlimit(resource.RLIMIT_FSIZE, (200 + world.fault[1], resource.RLIM_INFINITY))
            world.hit = True
        data_home = os.path.realpath(os.path.expanduser(env["RANKEVAL_DATA"]))
        world.outside, world.foreign = False, [os.path.join(data_home, n) for n in world.names if n != e["name"]]
        world.armed = True
        io_ = False
        try:
            kw = dict(download_if_missing=e["dl"], force_download=e["force"], with_models=e["models"])
            if e["default"]:
                kw = {k: v for k, v in kw.items() if v != dict(download_if_missing=True, force_download=False, with_models=True)[k]}
            if e["fold"]:
                kw["fold"] = e["fold"]
            c = load_dataset(e["name"], **kw)
            if c is None:
                out = dict(st="none")
            else:
                ms = []
                for f in c.model_filenames or []:
                    with open(f) as fh:
                        ms.append([os.path.basename(f), fh.read()])
                out = dict(st="ok", train=dataset(c.train_dataset), test=dataset(c.test_dataset), vali=dataset(c.validation_dataset),
                           models=ms, lic=c.license_agreement, link=world.terms.get(e["name"], SITE + "blog") in str(c.license_agreement))
        except BaseException as ex:   # an interruption is an outcome here
            io_ = isinstance(ex, (IOError, OSError))
            out = dict(st="exc", what=repr(ex)[:200])
        world.armed = False
        if full:
            resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
        out["io"] = io_
        line = json.dumps(dict(out=out, urls=world.urls, hit=world.hit, count=world.count, outside=world.outside, disk=used(world.home),
                               apart=used(world.home) - used(data_home))) + "\n"
        data = line.encode()
        while data:
            data = data[os.write(pipe, data):]
    os._exit(0)


def execute(ctx, world, events, env):
    """the results of all events; a death is one"""
    res = []
    while len(res) < len(events):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                child(world, events, len(res), w, env)
            except BaseException as ex:
                sys.stderr.write("child: %r\n" % ex)
            os._exit(3)
        os.close(w)
        with os.fdopen(r, "rb") as fh:
            lines = fh.read().split(b"\n")
        status = os.waitpid(pid, 0)[1]
        got = [json.loads(l) for l in lines[:-1]]
        res += got
        if len(res) < len(events):
            kind = events[len(res)]["fault"][0]
            if not (os.WIFSIGNALED(status) and (kind == "die" or kind.startswith("kill"))):
                raise RuntimeError("child ended with status %d at %r" % (status, events[len(res)]))
            # what it had asked for before it died is unknown, not needed
            res.append(dict(out=dict(st="dead", io=False), urls=[], hit=True, count=-1, outside=False, disk=used(world.home), apart=0))
    return res


def run(ctx):
    import rankeval.dataset.datasets_fetcher  # noqa: before the children lose their privileges
    rng = ctx.rng
    serial = [0]
    # the unprivileged user must reach its folder, wherever the checks live
    area = os.path.realpath(tempfile.mkdtemp(prefix="verif-c29-"))
    os.chmod(area, 0o755)

    def history(kinds, calls, big=False, tilde=False):
        """calls: (ds or -1, fold, dl, force, models, fault, bump, default)"""
        pub, arch = [], {}
        nver = 1 + sum(1 for c in calls if c[6])
        for k in kinds:
            vs = [publish(rng, k, v, big) for v in range(1, nver + 1)]
            pub.append([v[0] for v in vs])
            arch[k["name"]] = [v[1:] for v in vs]
        serial[0] += 1
        home = os.path.join(area, "h%d" % serial[0])
        os.mkdir(home)
        if os.geteuid() == 0:
            os.chown(home, NOBODY, NOBODY)
        world = World(kinds, arch, home)
        env = dict(HOME=home)
        if tilde == "default":
            env["RANKEVAL_DATA"] = DEFAULT
        elif tilde:
            env["RANKEVAL_DATA"] = "~/deep/er/data"
        else:
            env["RANKEVAL_DATA"] = home
        ver, events = 1, []
        for ds, fold, dl, force, models, fault, bump, default in calls:
            ver += bool(bump)
            events.append(dict(ds=ds + 1, name=kinds[ds]["name"] if ds >= 0 else "no such dataset", fold=fold, dl=dl, force=force,
                               models=models, ver=ver, fault=fault, default=default))
        ctx.mark(dict(calls=calls))
        try:
            res = execute(ctx, world, events, env)
        finally:
            shutil.rmtree(home)
        ev = []
        for e, r in zip(events, res):
            e = dict(e, op="fetch" if e["ds"] > 0 else "unknown", **r)
            e["cause"], e["fault"] = e["fault"][0].split()[0], "%s %d" % tuple(e["fault"])
            ev.append(e)
        ctx.emit(dict(cat=[dict(folds=k["folds"], vali=k["vali"], license=k["license"]) for k in kinds], pub=pub, ev=ev))
        return res

    NO = ("none", 0)
    fold_of = lambda k: 0 if not k["folds"] else rng.randrange(1, k["folds"] + 1)
    call = lambda k, ds, dl=True, force=False, models=True, fault=NO, bump=False: (ds, fold_of(k), dl, force, models, fault, bump, rng.random() < 0.5)
    try:
        # every sequence of options, from the specification
        seqs = ctx.cases[0]
        for j, s in enumerate(seqs):
            if not ctx.thorough and len(seqs) > 250 and (j + ctx.seed) % (len(seqs) // 250):
                continue
            k = KINDS[j % len(KINDS)]
            hist = []
            for n, c in enumerate(s["calls"]):
                hist.append(call(k, 0, c["dl"], c["force"], c["models"], (c["fault"], rng.randrange(100000)) if c["fault"] != "none" else NO, n > 0))
            hist.append(call(k, 0, rng.random() < 0.5, False, rng.random() < 0.7, NO, True))
            history([k], hist)
        # death, interruption and failure at every operation on the disk
        for k in KINDS if ctx.thorough else [KINDS[0], KINDS[4]]:
            for force in (False, True):
                pre = [call(k, 0)] if force else []
                n = history([k], pre + [call(k, 0, force=force, bump=force)])[-1]["count"]
                for at in range(n + 1):
                    for kind in ("die", "stop", "fail"):
                        if not ctx.thorough and kind != "die" and rng.random() < 0.5:
                            continue
                        after = [call(k, 0, models=rng.random() < 0.8, bump=rng.random() < 0.5, dl=False)] if rng.random() < 0.4 else []
                        history([k], pre + [call(k, 0, force=force, fault=(kind, at), bump=force)] + after +
                                [call(k, 0, bump=rng.random() < 0.5), call(k, 0, dl=False)])
        # the disk fills up while a file is written
        for j in range(150 if ctx.thorough else 25):
            k = rng.choice(KINDS)
            history([k], [call(k, 0, force=rng.random() < 0.3), call(k, 0, fault=("full", rng.randrange(3000)), force=True, bump=True)][rng.random() < 0.4:] +
                    [call(k, 0), call(k, 0, dl=False)], big=True)
        # archives with members that would be written elsewhere
        for j in range(120 if ctx.thorough else 30):
            kinds = rng.sample(KINDS, 2)
            fault = (rng.choice(["up d", "up d", "up m", "absolute d", "link d", "link d"]), rng.randrange(100000))
            pre = [call(kinds[1], 1)] if rng.random() < 0.8 else []
            pre += [call(kinds[0], 0)] if rng.random() < 0.3 else []
            history(kinds, pre + [call(kinds[0], 0, force=True, fault=fault), call(kinds[0], 0), call(kinds[1], 1, dl=not pre or rng.random() < 0.5)],
                    tilde=rng.choice([False, False, True, "default"]))
        # random histories over several datasets
        for j in range(1500 if ctx.thorough else 80):
            kinds = rng.sample(KINDS, rng.randrange(1, 4))
            calls = []
            for _ in range(rng.randrange(2, 9)):
                ds = rng.randrange(len(kinds)) if rng.random() < 0.93 else -1
                fold = fold_of(kinds[ds]) if rng.random() < 0.9 else rng.choice([0, 1, 2, 7])
                fault = NO
                if rng.random() < 0.45:
                    fault = (rng.choice(["refuse", "gone", "short", "short", "garbage", "reset", "interrupt", "kill"]) + " " + rng.choice("ddm"), rng.randrange(100000))
                    if rng.random() < 0.3:
                        fault = (rng.choice(["die", "stop", "fail"]), rng.randrange(60))
                calls.append((ds, fold, rng.random() < 0.75, rng.random() < 0.3, rng.random() < 0.7, fault, rng.random() < 0.4, rng.random() < 0.5))
            history(kinds, calls, tilde=rng.choice([False, False, True, "default"]))
    finally:
        shutil.rmtree(area)
