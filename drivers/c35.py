"""Model files that are cut off, damaged, or of another format."""
import re
from loaders import *

FORMATS = ["QuickRank", "XGBoost", "ScikitLearn", "LightGBM", "Jforests", "CatBoost"]
STARTS = dict(XGBoost=rb"(?m)^booster\[", ScikitLearn=rb"(?m)^booster\[")


def write(rng, fr, fmt, p):
    if fmt == "QuickRank":
        quickrank(fr, p)
    elif fmt == "XGBoost":
        xgboost(fr, p)
    elif fmt == "ScikitLearn":
        scikit(fr, p, "0.5", "0.1")
    elif fmt == "LightGBM":
        lightgbm(rng, fr, p, variant=rng.randrange(2))
    elif fmt == "Jforests":
        jforests(rng, fr, p)
    else:
        coreml(rng, fr, p)
    return open(p, "rb").read()


def ends(fmt, data):
    """bytes needed for each tree: with all of its lines, and with all of its nodes"""
    e = lambda rx: [m.end() for m in re.finditer(rx, data)]
    if fmt == "QuickRank":
        return e(rb"</tree>"), e(rb"</tree>")
    if fmt == "Jforests":
        return e(rb"</Tree>"), e(rb"</LeafOutputs>")
    if fmt == "LightGBM":
        return e(rb"(?m)^shrinkage=.*$"), e(rb"(?m)^leaf_value=.*$")
    if fmt == "CatBoost":
        return [], []
    starts = [m.start() for m in re.finditer(STARTS[fmt], data)] + [len(data)]
    t = [s - 1 for s in starts[1:]]
    return t, t


def read(ctx, fmt, data, rec):
    p = ctx.path("x.mlmodel" if fmt == "CatBoost" else "x.txt")
    open(p, "wb").write(data)
    ctx.mark(dict(fmt=fmt, rec={k: v for k, v in rec.items() if k != "forest"}, file=data[:6000].decode("latin1")))
    ok, v = ctx.call(lambda: dict(st="ok", m=arrays(load(p, fmt))))
    rec.update(fmt=fmt, strict=fmt == "XGBoost", out=v if ok else dict(st="exc", exc=v))
    ctx.emit(rec)
    os.unlink(p)


def cuts(ctx, fmt, data, dense):
    """where to cut: after every line, and anywhere in structured files"""
    rng = ctx.rng
    if fmt in ("XGBoost", "ScikitLearn", "LightGBM"):
        at = [m.end() for m in re.finditer(rb"\n", data)]
        at = [0] + [a for a in at if a < len(data)] + [a - 1 for a in at]
    elif fmt == "CatBoost":
        at = list(range(0, len(data), 1 + len(data) // 60))
    else:
        at = [m.end() for m in re.finditer(rb">", data)] + list(range(0, len(data), 1 + len(data) // 40))
    if fmt == "CatBoost":
        at = [a for a in at if a < len(data)]
    return at if dense else rng.sample(at, min(len(at), 6))


def children(ctx, fmt, data):
    """wrong child numbers in the array formats"""
    rng = ctx.rng
    rx = rb"(?m)^(?:left|right)_child=(.*)$" if fmt == "LightGBM" else rb"<(?:Left|Right)Children>(.*?)<"
    ms = [m for m in re.finditer(rx, data) if m.group(1).strip()]
    if not ms:
        return None
    m = rng.choice(ms)
    a = m.group(1).split()
    k = rng.randrange(len(a))
    a[k] = str(rng.choice([0, 1, -1, -2, k, len(a), len(a) + 3, -len(a) - 1, -len(a) - 2, -len(a) - 9, 100000, -100000])).encode()
    return data[:m.start(1)] + b" ".join(a) + data[m.end(1):]


def damaged(ctx, fmt, data):
    rng = ctx.rng
    kind = rng.choice(["drop", "twice", "swap", "children", "word"])
    if kind == "children" and fmt in ("LightGBM", "Jforests"):
        return children(ctx, fmt, data)
    lines = data.split(b"\n")
    j = rng.randrange(len(lines))
    if kind == "drop" or len(lines) < 2:
        del lines[j]
    elif kind == "twice":
        lines.insert(j, lines[j])
    elif kind == "swap":
        k = rng.randrange(len(lines))
        lines[j], lines[k] = lines[k], lines[j]
    else:
        words = lines[j].split(b" ")
        del words[rng.randrange(len(words))]
        lines[j] = b" ".join(words)
    return b"\n".join(lines)


def run(ctx):
    rng = ctx.rng
    p = ctx.path("m.txt")
    k = 0
    for fr, nf in forests(ctx, False, n_random=40, big=False):
        if sum(splits(t["root"]) for t in fr) > 40:
            continue
        k += 1
        fmt = FORMATS[k % 6]
        if fmt == "Jforests" and any("o" in t["root"] for t in fr):
            continue                    # has no form for trees without splits
        w = [dict(w=t["w"] if fmt in ("QuickRank", "Jforests") else "1", root=t["root"]) for t in fr]
        data = write(rng, fr, fmt, p)
        read(ctx, fmt, data, dict(kind="whole", forest=w))
        last, nodes_ = ends(fmt, data)
        for a in cuts(ctx, fmt, data, len(data) < 700 or k % 5 == 0):
            read(ctx, fmt, data[:a], dict(kind="cut", forest=w, at=a, last=last, nodes=nodes_))
        if fmt != "CatBoost":
            for _ in range(24 if ctx.thorough else 8):
                d = damaged(ctx, fmt, data)
                if d is not None:
                    read(ctx, fmt, d, dict(kind="damage"))
        if k % 3 == 0:
            for other in FORMATS:
                if other != fmt:
                    read(ctx, other, data, dict(kind="foreign", of=fmt))
    for fmt in FORMATS:
        for d in [b"", b"\n", b"1 qid:1 1:0.5 2:3\n0 qid:1 2:1\n", b"<ranker></ranker>", b"<a><b/></a>", b"tree\nnum_class=1\n\n", b"booster[0]:\n",
                  b"\x00\x01\x02" * 50, "mod\u00e8le".encode("utf8")]:
            read(ctx, fmt, d, dict(kind="foreign", of="other"))
