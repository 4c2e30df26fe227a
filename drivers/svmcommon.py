import bz2, gzip, io, os
import numpy as np
from vlib.child import enc, encs, encm

HANDLES = ["path", "gz", "bz2", "fd", "bytesio", "file"]


def render(lines, rng=None, comments=False, final_newline=None):
    """abstract lines -> text; comments are added anywhere when asked"""
    out = []
    # blanks between tokens and line ends are free
    gap = rng.choice([" ", " ", " ", "  ", "\t", " \t "]) if rng is not None else " "
    eol = rng.choice(["\n", "\n", "\n", "\r\n"]) if rng is not None and not comments else "\n"
    for l in lines:
        if comments and rng.random() < 0.3:
            out.append(rng.choice(["# a comment", "#", "#qid:3 1:2", "# 1 qid:1 1:5"]))
        s = l["lab"]
        if l["q"] != "":
            s += gap + "qid:" + l["q"]
        for fid, tok in l["f"]:
            s += "%s%d:%s" % (gap, fid, tok)
        if comments and rng.random() < 0.3:
            s += rng.choice([" # trailing", " #docid = 1:7", "# 9:9 8"])
        elif rng is not None and rng.random() < 0.2:
            s += " "
        out.append(s)
    if comments and rng.random() < 0.3:
        out.append("# the end")
    if not out:
        return ""
    text = eol.join(out)
    if final_newline is None:
        final_newline = rng is None or rng.random() < 0.75
    return text + (eol if final_newline else "")


def packed(p, data, compress, rng):
    """an archive of one or two streams"""
    k = rng.randrange(len(data) + 1) if rng.random() < 0.2 else len(data)
    with open(p, "wb") as f:
        f.write(compress(data[:k]) + (compress(data[k:]) if k < len(data) else b""))


def load_text(ctx, text, handle, load):
    """write text and load it through the given kind of handle"""
    data = text.encode()
    n = ctx.n
    if handle == "path":
        p = ctx.path("in%d.txt" % n)
        open(p, "wb").write(data)
    elif handle == "gz":
        p = ctx.path("in%d.txt.gz" % n)
        packed(p, data, gzip.compress, ctx.rng)
    elif handle == "bz2":
        p = ctx.path("in%d.txt.bz2" % n)
        packed(p, data, bz2.compress, ctx.rng)
    elif handle == "bytesio":
        return ctx.call(load, io.BytesIO(data))
    else:
        p = ctx.path("in%d.dat" % n)
        open(p, "wb").write(data)
    try:
        if handle == "fd":
            fd = os.open(p, os.O_RDONLY)
            try:
                r = ctx.call(load, fd)
                os.fstat(fd)        # a descriptor is not closed by the call
                return r
            finally:
                os.close(fd)
        if handle == "file":
            with open(p, "rb") as f:
                return ctx.call(load, f)
        return ctx.call(load, p)
    finally:
        os.unlink(p)


def out_of(ok, val, wantq=True):
    if not ok:
        return dict(st="exc", exc=val)
    X, y, q = val if wantq else (val[0], val[1], [])
    return dict(st="ok", shape=list(int(v) for v in np.asarray(X).shape), X=encm(X), y=encs(y), q=encs(q),
                f32=bool(np.asarray(X).dtype == np.float32 and np.asarray(y).dtype == np.float32))


def dataset_rows(d):
    q = d.get_qids_dataset()
    return d.X, d.y, q


def random_token(rng, wild=False):
    k = rng.randrange(10 if wild else 7)
    if k < 3:
        return str(rng.randrange(-9, 100))
    if k < 5:
        return "%.*f" % (rng.randrange(1, 9), rng.uniform(-1000, 1000))
    if k < 6:
        return "%g" % rng.uniform(-1, 1)
    if k < 7:
        return "0"
    if k == 7:
        return "%.*e" % (rng.randrange(1, 12), rng.uniform(-10, 10) * 10.0 ** rng.randrange(-44, 37))
    if k == 8:
        return rng.choice(["inf", "1e60", "3.4028235e38", "3.4028236e38", "-1e-46", "16777217", "0.1", "-0.0", "1e-45", "-inf", "-1e60", "-3.4028236e38", "+7", ".5", "5."])
    return "%.17g" % rng.uniform(-1e6, 1e6)


def random_file(rng, rows, maxf, density=None, wild=True, qids=True, growth=None):
    lines, q = [], rng.randrange(0, 50)
    style = growth or rng.choice(["uniform", "growing", "shrinking", "spike", "dense", "empty-ish"])
    for r in range(rows):
        if rng.random() < 0.4:
            q = rng.choice([q + 1, rng.randrange(0, 2 ** 31 - 1), rng.randrange(0, 100), rng.randrange(-40, 40)])
        top = {"uniform": maxf, "growing": max(1, maxf * (r + 1) // rows), "shrinking": max(1, maxf * (rows - r) // rows),
               "spike": maxf if r == rows // 2 else max(1, maxf // 4), "dense": maxf, "empty-ish": maxf}[style]
        d = density if density is not None else {"dense": 1.1, "empty-ish": 0.1}.get(style, rng.choice([0.2, 0.5, 0.9]))
        ids = [i for i in range(1, top + 1) if rng.random() < d]
        if not qids and not ids:
            ids = [rng.randrange(1, top + 1)]      # a label followed by nothing is not a sample
        lines.append(dict(lab=rng.choice(["0", "1", "2", "3", "4", "-1", "2.5", "0.125", "1e2", "0.1", "16777217", "-3.75e-3"]), q=str(q) if qids else "",
                          f=[[i, random_token(rng, wild)] for i in ids]))
    return lines
