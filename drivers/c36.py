"""Histories of loads: doubtful numbering, damaged archives and streams, good files in between."""
import itertools
from svmcommon import *


class Failing(object):
    """a binary stream that breaks while it is read"""
    def __init__(self, data, after, exc):
        self.lines = data.splitlines(True)
        self.after, self.exc, self.k = after, exc, 0

    def readline(self, *a):
        if self.k == self.after:
            raise self.exc
        self.k += 1
        return self.lines[self.k - 1] if self.k <= len(self.lines) else b""

    def read(self, *a):
        raise self.exc


def spread(lines, base, rng):
    """the same values with features numbered from base"""
    return [dict(l, f=[[i + base - 1, t] for i, t in l["f"]]) for l in lines]


def run(ctx):
    from rankeval.dataset import Dataset
    from rankeval.dataset.svmlight_format import load_svmlight_file
    rng = ctx.rng
    load = lambda h: load_svmlight_file(h, query_id=True)

    def text_event(op, lines, kind):
        text = render(lines, rng, rng.random() < 0.3)
        ctx.mark(text)
        ok, v = load_text(ctx, text, rng.choice(HANDLES), load)
        return dict(op=op, kind=kind, lines=lines, text=text[:300], out=out_of(ok, v))

    def base(rows=None, maxf=None):
        return random_file(rng, rows or rng.choice([1, 2, 3, 5, 8]), maxf or rng.choice([2, 3, 5, 9]), wild=False, density=rng.choice([0.5, 0.9, 1.1]))

    def good():
        return text_event("good", base(), "good")

    def zero():
        lines = spread(base(), 0, rng)
        for l in lines:
            if l["f"] and l["f"][0][0] != 0:
                l["f"].insert(0, [0, random_token(rng)])
        if not any(l["f"] for l in lines):
            lines[0]["f"] = [[0, "1"]]
        return text_event("zero", lines, "zero")

    def doubtful(kind):
        lines = base()
        at = rng.randrange(len(lines))
        l = lines[at]
        if kind in ("swapped", "repeated", "late zero", "negative"):
            while len(l["f"]) < 2:
                l["f"].append([(l["f"][-1][0] if l["f"] else 0) + rng.choice([1, 1, 2]), random_token(rng)])
        if kind == "swapped":
            k = rng.randrange(len(l["f"]) - 1)
            l["f"][k], l["f"][k + 1] = l["f"][k + 1], l["f"][k]
        elif kind == "repeated":
            k = rng.randrange(1, len(l["f"]))
            l["f"][k][0] = l["f"][k - 1][0]
        elif kind == "late zero":
            l["f"].insert(rng.randrange(1, len(l["f"]) + 1), [0, "7"])
        elif kind == "negative":
            l["f"].insert(0, [-rng.randrange(1, 4), "7"])
        elif kind == "mixed numbering":
            lines = spread(lines, 0, rng)
        elif kind == "one zero":
            l["f"].insert(0, [0, "7"])
        elif kind == "missing qid":
            if len(lines) < 2:
                lines += base()
            for l in rng.sample(lines, rng.randrange(1, len(lines))):
                l["q"] = ""
                l["f"] = l["f"] or [[1, "3"]]
        elif kind == "far qid":
            l["q"] = str(rng.choice([2 ** 31, 2 ** 32, 2 ** 32 + 1, 2 ** 33 + 5, 3000000000, 2 ** 63 - 1, 2 ** 64, 10 ** 25, -2 ** 31 - 1, -2 ** 32 - 7, 2 ** 31 + rng.randrange(2 ** 31)]))
        elif kind == "random":
            for l in lines:
                l["f"] = [[rng.randrange(0, 5), random_token(rng)] for _ in range(rng.randrange(0, 4))]
                l["q"] = "" if rng.random() < 0.05 else l["q"]
        return text_event("doubtful", lines, kind)

    def small(toks, qs):
        """a file from its feature numbers"""
        lines = [dict(lab=str(r), q=q, f=[[t, str(10 * (r + 1) + k)] for k, t in enumerate(ts)]) for r, (ts, q) in enumerate(zip(toks, qs))]
        return text_event("doubtful", lines, "enumerated")

    def hopeless(kind):
        lines = base()
        text = render(lines, rng, final_newline=True)
        handle = rng.choice(HANDLES)
        if kind == "far id":
            n = rng.choice([2 ** 32 + 1, 2 ** 32 + 2, 2 ** 33 + 1, 2 ** 64 + 1, 10 ** 22, 2 ** 32 + rng.randrange(1, 9)])
            text += "1 qid:%s %d:3\n" % (lines[-1]["q"], n)
        elif kind == "glued":
            text += "1qid:%s 1:3\n" % lines[-1]["q"]
        elif kind == "null":
            k = rng.randrange(1, len(text))
            while text[k] == "#":
                k -= 1
            text = text[:k] + "\0" + text[k:]
        elif kind == "empty":
            text = ""
        elif kind == "comments":
            text = "# nothing\n# here\n"
        if kind in ("missing", "directory", "type"):
            h = {"missing": ctx.path("no-such-file" + rng.choice(["", ".gz", ".bz2"])), "directory": ctx.path("."),
                 "type": rng.choice([None, 1.5, ["a"], {}])}[kind]
            ctx.mark(kind)
            ok, v = ctx.call(load, h)
        else:
            ctx.mark(text)
            ok, v = load_text(ctx, text, handle, load)
        return dict(op="hopeless", kind=kind, text=text[:300], out=dict(st="ok" if ok else "exc"))

    def damaged(kind):
        n = rng.choice([1, 3, 8, 8, 40, 400])
        lines = base(n, 4 if n > 8 else 5)
        data = render(lines, rng).encode()
        suffix = rng.choice([".gz", ".bz2"])
        packed = gzip.compress(data) if suffix == ".gz" else bz2.compress(data)
        h, p = None, ctx.path("d" + suffix)
        if kind == "cut":
            packed = packed[:rng.choice([rng.randrange(len(packed)), len(packed) - 1, len(packed) - rng.randrange(1, 9)])]
        elif kind == "flip":
            k = rng.randrange(len(packed))
            packed = packed[:k] + bytes([packed[k] ^ (1 << rng.randrange(8))]) + packed[k + 1:]
        elif kind == "not packed":
            packed = data
        elif kind == "other packing":
            packed = bz2.compress(data) if suffix == ".gz" else gzip.compress(data)
        elif kind == "text object":
            h = io.StringIO(data.decode())
        elif kind == "text file":
            p = ctx.path("d.txt")
            open(p, "wb").write(data)
            h = open(p, "r")
        elif kind == "failing":
            h = Failing(data, rng.randrange(0, len(data.splitlines()) + 1), rng.choice([OSError("broken"), ValueError("x"), KeyboardInterrupt(), EOFError()]))
        elif kind == "cut object":
            packed = packed[:rng.randrange(len(packed))]
            open(p, "wb").write(packed)
            h = gzip.open(p, "rb") if suffix == ".gz" else bz2.open(p, "rb")
        elif kind == "closed":
            h = io.BytesIO(data)
            h.close()
        if h is None:
            open(p, "wb").write(packed)
        ctx.mark("%s %s %s" % (kind, suffix, data[:2000].decode()))
        f = load if rng.random() < 0.7 or kind == "closed" else (lambda x: dataset_rows(Dataset.load(x)))
        try:
            ok, v = ctx.call(f, p if h is None else h)
        except KeyboardInterrupt:
            ok, v = False, "KeyboardInterrupt"
        if h is not None and hasattr(h, "close"):
            h.close()
        return dict(op="damaged", kind=kind, suffix=suffix, lines=lines if ok else [], text=data[:200].decode(), out=out_of(ok, v))

    D = ["swapped", "repeated", "late zero", "negative", "mixed numbering", "one zero", "missing qid", "far qid", "random"]
    H = ["far id", "glued", "null", "empty", "comments", "missing", "directory", "type"]
    G = ["cut", "cut", "flip", "not packed", "other packing", "text object", "text file", "failing", "cut object", "closed"]
    # every file of up to two lines with up to two features numbered 0..2 (three lines when thorough)
    toks = [t for n in range(3) for t in itertools.product(range(3), repeat=n)]
    every = [[t] for t in toks] + [[a, b] for a in toks for b in toks]
    evs = [small(c, [("1" if rng.random() < 0.97 else "") for _ in c]) for c in every if all(c) or True]
    for k in range(0, len(evs), 8):
        ctx.emit(dict(ev=evs[k:k + 8]))
    kinds = [(doubtful, k) for k in D] + [(hopeless, k) for k in H] + [(damaged, k) for k in G]
    for _ in range(30 if ctx.thorough else 5):
        for f, k in kinds:
            ctx.emit(dict(ev=[f(k), good(), zero()]))
    for _ in range(800 if ctx.thorough else 90):
        ev = []
        for _ in range(rng.randrange(3, 9)):
            if rng.random() < 0.3:
                ev.append(good())
            elif rng.random() < 0.15:
                ev.append(zero())
            else:
                f, k = rng.choice(kinds)
                ev.append(f(k))
        ctx.emit(dict(ev=ev))
