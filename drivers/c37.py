"""Lists of files loaded by one call."""
from svmcommon import *


def one(ctx, files, spoilt=False):
    from rankeval.dataset.svmlight_format import load_svmlight_files
    rng = ctx.rng
    wantq = rng.random() < 0.7
    handles, opened = [], []
    texts = []
    again = {}      # a path may be given more than once
    for k, lines in enumerate(files):
        if id(lines) in again:
            handles.append(again[id(lines)])
            continue
        text = render(lines, rng, rng.random() < 0.3, True if spoilt else None)
        if spoilt and k == spoilt - 1:
            text += rng.choice(["x\n", "1 qid:1 1:2 foo\n", "\n\n"])
        texts.append(text)
        kind = rng.choice(HANDLES)
        p = ctx.path("f%d%s" % (k, {"gz": ".gz", "bz2": ".bz2"}.get(kind, ".txt")))
        data = text.encode()
        if kind == "bytesio":
            handles.append(io.BytesIO(data))
            continue
        open(p, "wb").write(gzip.compress(data) if kind == "gz" else bz2.compress(data) if kind == "bz2" else data)
        if kind == "fd":
            fd = os.open(p, os.O_RDONLY)
            opened.append(fd)
            handles.append(fd)
        elif kind == "file":
            f = open(p, "rb")
            opened.append(f)
            handles.append(f)
        else:
            handles.append(p)
            if not spoilt:
                again[id(lines)] = p
    arg = rng.choice([list, tuple, iter, lambda h: (x for x in h)])(handles)
    ctx.mark("\n--\n".join(texts))

    def f():
        r = load_svmlight_files(arg, query_id=wantq)
        n = 3 if wantq else 2
        return dict(st="ok", parts=[out_of(True, tuple(r[k:k + n]), wantq) for k in range(0, len(r), n)])
    ok, v = ctx.call(f)
    for h in opened:
        os.close(h) if isinstance(h, int) else h.close()
    ctx.emit(dict(files=files, spoilt=bool(spoilt), wantq=wantq, out=v if ok else dict(st="exc", exc=v)))


def run(ctx):
    rng = ctx.rng
    # every pair of widths, with and without rows that use the last feature
    for a in range(1, 5):
        for b in range(1, 5):
            mk = lambda w, s: [dict(lab=str(r), q="1", f=[[i, "%d.5" % (s + i + 10 * r)] for i in range(1, w + 1) if r == 0 or i % 2]) for r in range(2)]
            one(ctx, [mk(a, 100), mk(b, 200)])
            one(ctx, [mk(a, 100), mk(b, 200), mk(2, 300)])
    for _ in range(600 if ctx.thorough else 90):
        n = rng.choice([1, 2, 2, 3, 4, 7])
        files = [random_file(rng, rng.choice([1, 2, 5, 12]), rng.choice([1, 2, 4, 9, 20]), qids=rng.random() < 0.85) for _ in range(n)]
        if rng.random() < 0.3:
            files.insert(rng.randrange(n + 1), rng.choice(files))
        one(ctx, files, spoilt=rng.randrange(1, n + 1) if rng.random() < 0.15 else False)
