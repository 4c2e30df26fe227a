import bz2, gzip, io, os, struct
import numpy as np
from vlib.child import encs


def bits(a):
    return [format(int(v), "08x") for v in np.ascontiguousarray(a, dtype=np.float32).view(np.uint32).ravel()]


def rnd(rng, n, style):
    out = []
    for _ in range(n):
        k = style if style != "mix" else rng.choice(["bits", "small", "dec", "edge"])
        if k == "bits":
            while True:
                u = rng.getrandbits(32)
                if (u >> 23) & 0xFF != 0xFF:
                    break
            v = struct.unpack("<f", struct.pack("<I", u))[0]
        elif k == "small":
            v = float(rng.randrange(-5, 6))
        elif k == "dec":
            v = rng.uniform(-100, 100)
        else:
            v = rng.choice([0.0, -0.0, 1e-45, -1e-45, 3.4028234663852886e38, -3.4028234663852886e38, 1.17549435e-38,
                            16777216.0, 16777215.0, 8388608.5, 0.1, 1 / 3., 123456789.0, 9.9999997e-5, 33554432.0])
        out.append(v)
    return np.array(out, dtype=np.float32)


def run(ctx):
    from rankeval.dataset import Dataset
    from rankeval.dataset.svmlight_format import load_svmlight_file, dump_svmlight_file
    rng = ctx.rng
    handles = ["path", "gz", "bz2", "fd", "stringio", "file"]

    def trip(n, m, style, handle, q, base, layout, via):
        X = rnd(rng, n * m, style).reshape(n, m)
        y = rnd(rng, n, rng.choice(["small", style]))
        if layout == "F":
            X = np.asfortranarray(X)
        elif layout == "strided":
            big = rnd(rng, n * 2 * m * 3, style).reshape(2 * n, 3 * m)
            X = big[::2, ::3]
            y = np.repeat(y, 2)[::2]
        elif layout == "f64":
            X, y = X.astype(np.float64), y.astype(np.float64)
        elif layout == "list" and via == "func":
            X, y = X.tolist(), y.tolist()
        x0, y0 = bits(np.array(X, dtype=np.float32)), bits(np.array(y, dtype=np.float32))
        rec = dict(kind="trip", n=n, m=m, handle=handle, layout=layout, via=via, base=base,
                   X=[x0[r * m:(r + 1) * m] for r in range(n)], y=y0, q=[str(v) for v in q] if q is not None else [])
        p = ctx.path("d%d" % ctx.n + {"gz": ".gz", "bz2": ".bz2"}.get(handle, ".txt"))
        ctx.mark(rec)

        def dump(h):
            if via == "dataset":
                Dataset(X, y, np.array(q, dtype=np.int32)).dump(h)
            else:
                qq = None if q is None else (list(q) if layout == "list" else np.array(q))
                dump_svmlight_file(X, y, h, qq, zero_based=(base == 0))

        def both():
            if handle in ("path", "gz", "bz2"):
                dump(p)
                return load_svmlight_file(p, query_id=True)
            if handle == "fd":
                fd = os.open(p, os.O_WRONLY | os.O_CREAT)
                dump(fd)
                os.close(fd)
                return load_svmlight_file(p, query_id=True)
            if handle == "file":
                with open(p, "wt") as f:
                    dump(f)
                    f.flush()
                return load_svmlight_file(p, query_id=True)
            s = io.StringIO()
            dump(s)
            return load_svmlight_file(io.BytesIO(s.getvalue().encode()), query_id=True)

        ok, v = ctx.call(both)
        if ok:
            X1, y1, q1 = v
            b = bits(X1)
            w = int(X1.shape[1])
            rec["out"] = dict(st="ok", shape=[int(t) for t in X1.shape],
                              X=[b[r * w:(r + 1) * w] for r in range(int(X1.shape[0]))],
                              y=bits(y1), q=[str(int(t)) for t in q1],
                              intact=bits(np.array(X, dtype=np.float32)) == x0 and bits(np.array(y, dtype=np.float32)) == y0)
        else:
            rec["out"] = dict(st="exc", exc=v)
        if os.path.exists(p):
            os.unlink(p)
        ctx.emit(rec)

    def qids(n):
        q, out = rng.choice([rng.randrange(0, 9), rng.randrange(0, 9), rng.randrange(-2000, 0)]), []
        while len(out) < n:
            out += [q] * rng.randrange(1, 4)
            q = rng.choice([q + 1, q + 1 + rng.randrange(0, 10 ** 6), q + 7])
        return out[:n]

    def impossible(kind, X, y, q, via):
        """what the format cannot hold; an existing file stays as it is"""
        p = ctx.path("old.txt")
        before = "3 qid:3 1:3 \n"
        with open(p, "w") as f:
            f.write(before)
        ctx.mark(kind)

        def f():
            if via == "dataset":
                Dataset(np.array(X, dtype=np.float32), np.array(y, dtype=np.float32), np.array(q)).dump(p)
            elif via.startswith("format "):
                Dataset(np.array(X, dtype=np.float32), np.array(y, dtype=np.float32), np.array(q)).dump(p, format=via[7:])
            else:
                dump_svmlight_file(X, y, p, q)
        ok, v = ctx.call(f)
        with open(p) as f:
            after = f.read()
        os.unlink(p)
        ctx.emit(dict(kind=kind, n=len(X), refused=not ok, kept=after == before, text=after[:200]))

    whole = ctx.path("whole.txt")
    with open(whole, "w") as f:
        f.write("1 qid:1 1:2\n")
    for _ in range(60 if ctx.thorough else 12):
        n, m = rng.randrange(1, 7), rng.randrange(1, 5)
        X, y = rnd(rng, n * m, "small").reshape(n, m), rnd(rng, n, "small")
        q = qids(n)
        form = rng.choice([list, np.array])
        wrong = rng.choice([k for k in (0, 1, n - 1, n + 1, 2 * n, 40) if k != n])
        impossible("wrong number of labels", X, form([1.0] * wrong), q if rng.random() < 0.5 else None, "func")
        impossible("wrong number of query ids", X, y, form([5] * wrong), "func")
        impossible("no matrix", X.ravel(), y, None, "func")
        other = rng.choice(["csv", "libsvm", "SVMLIGHT", "", "letor", "svmlight2"])
        impossible("an unknown format", X, y, sorted(q), "format " + other)
        ok, v = ctx.call(Dataset.load, whole, format=other)
        ctx.emit(dict(kind="an unknown format", n=0, refused=not ok, kept=True, text=""))
        far = rng.choice([2 ** 31, 2 ** 32 + 5, 2 ** 40, -2 ** 31 - 1])
        impossible("query id beyond 32 bits", X, y, [q[0]] * (n - 1) + [far], "func")
        impossible("query id beyond 32 bits", X, y, np.array([q[0]] * (n - 1) + [far]), rng.choice(["func", "dataset"]))

    for n in (1, 2, 3, 5):
        for m in (1, 2, 7):
            for handle in handles:
                for withq in (True, False):
                    via = "dataset" if withq and rng.random() < 0.5 else "func"
                    trip(n, m, "mix", handle, qids(n) if withq else None, 0 if via == "func" and rng.random() < 0.25 else 1,
                         rng.choice(["C", "C", "F", "strided", "f64", "list"]), via)
    for _ in range(800 if ctx.thorough else 120):
        n, m = rng.randrange(1, 12), rng.randrange(1, 15)
        withq = rng.random() < 0.7
        via = "dataset" if withq and rng.random() < 0.5 else "func"
        trip(n, m, rng.choice(["bits", "mix", "dec", "edge"]), rng.choice(handles), qids(n) if withq else None,
             0 if via == "func" and rng.random() < 0.2 else 1, rng.choice(["C", "F", "strided", "f64", "list"]), via)
    trip(300, 140, "bits", "gz", qids(300), 1, "C", "dataset")
    if ctx.thorough:
        trip(3000, 50, "bits", "path", qids(3000), 1, "C", "dataset")
