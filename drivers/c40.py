"""Simultaneous fetches of one dataset under a chosen schedule: every fetch is
a process of its own that stops before each of its operations on the disk (and
each request to the stand-in for the web) until it is let go on.

As in C29 the processes belong to an unprivileged user who owns nothing but
its scratch folder."""
import select, time
from c29 import *


class RaceWorld(World):
    """a world whose operations wait for permission"""
    gate = None

    def hook(self, event, args):
        if not self.armed:
            return
        if event in ("open", "os.listdir", "os.scandir"):
            p = args[0]
            p = os.fsdecode(p) if isinstance(p, bytes) else p
            if isinstance(p, str) and (os.path.realpath(p) + "/").startswith(self.home + "/"):
                self.gate()
        elif event in CHANGES:
            self.gate()
        World.hook(self, event, args)


class RaceWeb(Web):
    def http_open(self, req):
        self.w.gate()
        return Web.http_open(self, req)
    https_open = http_open


def racer(world, e, up, down, env):
    if os.geteuid() == 0:
        os.setgroups([])
        os.setgid(NOBODY)
        os.setuid(NOBODY)
    os.environ.update(env)
    os.chdir(world.home)
    tempfile.tempdir = world.home
    sys.stdout = open(os.devnull, "w")

    def gate():
        os.write(up, b".")
        os.read(down, 1)
    world.gate = gate
    urllib.request.install_opener(urllib.request.OpenerDirector())
    urllib.request._opener.add_handler(RaceWeb(world))
    urllib.request._opener.add_handler(urllib.request.HTTPErrorProcessor())
    from rankeval.dataset.datasets_fetcher import load_dataset
    sys.addaudithook(world.hook)
    world.urls, world.fault, world.ver = [], NO, 1
    world.armed = True
    try:
        kw = dict(download_if_missing=e["dl"], force_download=e["force"], with_models=e["models"])
        if e["fold"]:
            kw["fold"] = e["fold"]
        c = load_dataset(e["name"], **kw)
        ms = []
        for f in c.model_filenames or []:
            with open(f) as fh:
                ms.append([os.path.basename(f), fh.read()])
        out = dict(st="ok", train=dataset(c.train_dataset), test=dataset(c.test_dataset), vali=dataset(c.validation_dataset),
                   models=ms, lic=c.license_agreement)
    except Exception as ex:
        out = dict(st="exc", what=repr(ex)[:200])
    world.armed = False
    data = b"R" + json.dumps(out).encode()
    while data:
        data = data[os.write(up, data):]
    os._exit(0)


NO = ("none", 0)


class Racer(object):
    def __init__(self, world, e, env, others):
        r, up = os.pipe()
        down, w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(r), os.close(w)
                for o in others:      # their ends of the pipes have to close with them
                    for fd in (o.r, o.w):
                        if fd is not None:
                            os.close(fd)
                racer(world, e, up, down, env)
            except BaseException as ex:
                sys.stderr.write("racer: %r\n" % ex)
            os._exit(3)
        os.close(up), os.close(down)
        self.r, self.w, self.out, self.gates, self.waits = r, w, None, 0, False
        self.advance()

    def advance(self, patience=1.0):
        """until it is at its next gate, or done; False when it waits for something else"""
        if not select.select([self.r], [], [], patience)[0]:
            self.waits = True
            return False
        self.waits = False
        b = os.read(self.r, 1)
        if b == b".":
            self.gates += 1
            return True
        data = b""
        while True:
            more = os.read(self.r, 65536)
            if not more:
                break
            data += more
        os.close(self.r), os.close(self.w)
        self.r = self.w = None
        status = os.waitpid(self.pid, 0)[1]
        if b != b"R":
            raise RuntimeError("racer ended with status %d" % status)
        self.out = json.loads(data)
        return True

    def step(self):
        if self.out is not None:
            return False
        if self.waits:
            return self.advance(0.05)
        os.write(self.w, b"g")
        return self.advance()

    def kill(self):
        if self.out is None:
            os.kill(self.pid, signal.SIGKILL)
            os.waitpid(self.pid, 0)
            os.close(self.r), os.close(self.w)
            self.r = self.w = None
            self.out = dict(st="dead")


def race(world, reqs, schedule, env):
    """the racers after the schedule: a sequence of (who, number of steps; -1 to the end, -2 killed)"""
    rs = []
    try:
        for e in reqs:
            rs.append(Racer(world, e, env, rs))
        for p, n in list(schedule) + [(p, -1) for p in range(len(reqs))]:
            if n == -2:
                rs[p].kill()
                continue
            while n and rs[p].out is None and rs[p].step():
                n -= 1
        # whoever waited for another one
        end = time.time() + 60
        while any(r.out is None for r in rs):
            if time.time() > end:
                break
            for r in rs:
                r.step()
        for r in rs:
            if r.out is None:
                r.kill()
                r.out = dict(st="stuck")
    finally:
        for r in rs:
            r.kill()
    return rs


def run(ctx):
    import rankeval.dataset.datasets_fetcher  # noqa: before the children lose their privileges
    rng = ctx.rng
    serial = [0]
    area = os.path.realpath(tempfile.mkdtemp(prefix="verif-c40-"))
    os.chmod(area, 0o755)

    def one(k, reqs, schedule, before=False, deep=False):
        pub = publish(rng, k, 1, False)
        serial[0] += 1
        home = os.path.join(area, "h%d" % serial[0])
        os.mkdir(home)
        if os.geteuid() == 0:
            os.chown(home, NOBODY, NOBODY)
        world = RaceWorld([k], {k["name"]: [pub[1:]]}, home)
        env = dict(HOME=home, RANKEVAL_DATA="~/deep/data" if deep else home)
        reqs = [dict(r, name=k["name"]) for r in reqs]
        ctx.mark(dict(kind=k["name"], reqs=reqs, schedule=schedule, before=before))
        try:
            if before:
                race(world, [dict(name=k["name"], dl=True, force=False, models=True, fold=reqs[0]["fold"])], [], env)
            rs = race(world, reqs, schedule, env)
            after = []
            for dl in (False, True):
                e = dict(name=k["name"], dl=dl, force=False, models=rng.random() < 0.6, fold=reqs[0]["fold"])
                e["out"] = race(world, [e], [], env)[0].out
                after.append(e)
        finally:
            shutil.rmtree(home)
        ctx.emit(dict(cat=dict(folds=k["folds"], vali=k["vali"], license=k["license"]), pub=pub[0], before=before, schedule=[list(s) for s in schedule],
                      procs=[dict(r, out=x.out) for r, x in zip(reqs, rs)], after=after))
        return [r.gates for r in rs]

    fold_of = lambda k: 0 if not k["folds"] else rng.randrange(1, k["folds"] + 1)
    req = lambda k, force=False, models=True, dl=True: dict(fold=fold_of(k), force=force, models=models, dl=dl)
    try:
        for k in (KINDS[0], KINDS[4]):
            n = one(k, [req(k)], [])[0]
            for i in range(n + 1):
                # the other one overtakes at every point; at every point the first one dies
                one(k, [req(k), req(k)], [(0, i), (1, -1)], deep=i % 3 == 0)
                if i % 2 == 0 or ctx.thorough:
                    j = rng.randrange(n + 1)
                    one(k, [req(k), req(k)], [(0, i), (1, j), (0, -2)])
            pairs = [(i, j) for i in range(n + 1) for j in range(n + 1)]
            for i, j in pairs if ctx.thorough else rng.sample(pairs, 60):
                one(k, [req(k), req(k)], [(0, i), (1, j), (0, -1)])
        for _ in range(1500 if ctx.thorough else 130):
            k = rng.choice(KINDS)
            m = rng.choice([2, 2, 2, 3])
            reqs = [req(k, rng.random() < 0.4, rng.random() < 0.7, rng.random() < 0.9) for _ in range(m)]
            big = rng.random() < 0.5
            sched = [(rng.randrange(m), rng.randrange(1, 40 if big else 8)) for _ in range(rng.randrange(2, 10 if big else 25))]
            if rng.random() < 0.3:
                sched.insert(rng.randrange(len(sched)), (rng.randrange(m), -2))
            one(k, reqs, sched, rng.random() < 0.4, rng.random() < 0.3)
    finally:
        shutil.rmtree(area)
