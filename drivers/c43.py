"""Datasets, models and drawings written where the room ends somewhere: the
size of files is limited, or a stream of the caller stops taking data."""
import bz2, gzip, resource, signal
from scorecommon import *

signal.signal(signal.SIGXFSZ, signal.SIG_IGN)


class Sink(object):
    """a text stream that takes so many characters"""
    def __init__(self, cap, exc):
        self.cap, self.exc, self.parts, self.n, self.closed_ = cap, exc, [], 0, False

    def write(self, s):
        if 0 <= self.cap < self.n + len(s):
            self.parts.append(s[:self.cap - self.n])
            self.n = self.cap
            raise self.exc
        self.parts.append(s)
        self.n += len(s)
        return len(s)

    def flush(self):
        pass

    def close(self):
        self.closed_ = True


def run(ctx):
    from rankeval.dataset import Dataset
    from rankeval.dataset.svmlight_format import dump_svmlight_file
    from rankeval.visualization.topological import export_graphviz
    rng = ctx.rng

    def limited(cap, f):
        soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
        if cap >= 0:
            resource.setrlimit(resource.RLIMIT_FSIZE, (cap, hard))
        try:
            ok, v = ctx.call(f)
        except KeyboardInterrupt:
            ok, v = False, "KeyboardInterrupt"
        finally:
            resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
        return ok and v is not False

    def content(path):
        opener = gzip.open if path.endswith(".gz") else bz2.open if path.endswith(".bz2") else open
        try:
            with opener(path, "rt", encoding="utf-8") as f:
                return f.read()
        except Exception:
            return None

    def one(kind, via, write, state, caps):
        """write(target) writes it to a path, a descriptor or a stream; state() is what must not change"""
        before = state()
        whole = Sink(-1, None)
        if kind == "model":
            p = ctx.path("whole")
            write(p)
            text = content(p)
            os.unlink(p)
        else:
            write(whole)
            text = "".join(whole.parts)
        name = ctx.path("out" + dict(path=".txt", gz=".gz", bz2=".bz2").get(via, ".txt"))

        def attempt(cap):
            """(told, whole, open, size)"""
            if via == "stream":
                s = Sink(cap, rng.choice([OSError(28, "no space left"), ValueError("closed"), KeyboardInterrupt()]))
                told = limited(-1, lambda: write(s))
                return told, "".join(s.parts) == text, not s.closed_, len(text)
            if via == "descriptor":
                fd = os.open(name, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
                try:
                    told = limited(cap, lambda: write(fd))
                    try:
                        os.fstat(fd)
                        still = True
                    except OSError:
                        still = False
                finally:
                    try:
                        os.close(fd)
                    except OSError:
                        pass
                return told, content(name) == text, still, os.path.getsize(name)
            if via == "open file":
                f = open(name, "w", encoding="utf-8")
                told = limited(cap, lambda: (write(f), f.flush())[0])
                still = not f.closed
                try:
                    f.close()
                except OSError:
                    pass
                return told, content(name) == text, still, os.path.getsize(name)
            told = limited(cap, lambda: write(name))
            return told, content(name) == text, True, os.path.getsize(name) if os.path.exists(name) else 0
        for cap in caps:
            ctx.mark(dict(kind=kind, via=via, cap=cap))
            told, comp, still, need = attempt(-1)
            if os.path.exists(name) and rng.random() < 0.5:
                os.unlink(name)
            if cap == "fits":
                cap = need + rng.choice([0, 0, 1, 5000])
            elif cap == "short":
                cap = max(0, need - rng.choice([1, 1, 2, 7]))
            elif not isinstance(cap, int):
                cap = rng.randrange(0, need + 2)
            first = attempt(cap)
            last = attempt(-1)
            if os.path.exists(name):
                os.unlink(name)
            ctx.emit(dict(kind=kind, via=via, need=need, cap=cap, told=first[0], whole=first[1], again=told and comp and last[0] and last[1],
                          open=still and first[2] and last[2], intact=state() == before))

    for k in range(160 if ctx.thorough else 25):
        n, nf = rng.choice([1, 2, 7, 40, 300 if k % 5 == 0 else 9]), rng.choice([1, 3, 9])
        X = np.array([[np.float32(rng.choice([0, 1, 0.5, rng.uniform(-9, 9)])) for _ in range(nf)] for _ in range(n)], dtype=np.float32)
        y = np.array([rng.randrange(5) for _ in range(n)], dtype=np.float32)
        q = np.array(sorted(rng.randrange(1, 9) for _ in range(n)), dtype=np.int32)
        d = Dataset(X, y, q)
        ids, zero = (q if rng.random() < 0.7 else None), rng.random() < 0.3
        state = lambda: (encm(d.X), encs(d.y), [int(v) for v in d.get_qids_dataset()], encm(X), encs(y))
        caps = ["any", "any", "any", "short", "fits", 0]
        for via in ("path", "gz", "bz2", "descriptor", "stream", "open file"):
            if via in ("path", "gz", "bz2") and rng.random() < 0.5:
                one("dataset", via, lambda t: d.dump(t), state, caps)
            else:
                one("rows", via, lambda t: dump_svmlight_file(X, y, t, query_id=ids, zero_based=zero), state, caps)
        m, fr, base, lr, fmt = random_model(ctx, False, nf, n=rng.choice([1, 3, 20]))
        mstate = lambda: (flat(m), m.learning_rate, m.base_score)
        one("model", "path", lambda t: m.save(t), mstate, caps)
        for via in ("path", "stream", "open file"):
            one("drawing", via, lambda t: export_graphviz(m, tree_id=0, out_file=t), mstate, caps)
    # the room ends after every single byte
    X, y, q = np.array([[1, 2.5], [0, -3]], dtype=np.float32), np.array([1, 0], dtype=np.float32), np.array([4, 4])
    d = Dataset(X, y, q)
    fr = forest(rng, 1, 1, 2, "dyadic")
    m = model(ctx, fr)
    whole = Sink(-1, None)
    dump_svmlight_file(X, y, whole, query_id=q)
    for via in ("path", "gz", "bz2", "descriptor", "stream", "open file"):
        one("rows", via, lambda t: dump_svmlight_file(X, y, t, query_id=q), lambda: 0, list(range(whole.n + 1)) if via in ("path", "stream") or ctx.thorough else ["any"] * 9)
    if ctx.thorough:
        one("model", "path", lambda t: m.save(t), lambda: 0, list(range(0, 900, 3)))
        for via in ("path", "stream"):
            one("drawing", via, lambda t: export_graphviz(m, out_file=t), lambda: 0, list(range(0, 400, 2)))
