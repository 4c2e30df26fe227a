"""Histories of loads: good files and files with one malformed line."""
import re
from svmcommon import *

BAD = [
    ("empty line", lambda r, q: ""),
    ("blanks only", lambda r, q: "   "),
    ("no label", lambda r, q: "qid:%s 1:2" % q),
    ("text label", lambda r, q: r.choice(["abc", "x1", "-", "."]) + " qid:%s 1:2 2:3" % q),
    ("label only", lambda r, q: r.choice(["1", "0", "2.5"])),
    ("label and comment", lambda r, q: "1 # qid:1 1:2"),
    ("word token", lambda r, q: "1 qid:%s 1:2 foo" % q),
    ("bare number", lambda r, q: "1 qid:%s 1:2 3" % q),
    ("missing value", lambda r, q: "1 qid:%s 1:2 2:" % q),
    ("missing id", lambda r, q: "1 qid:%s :2" % q),
    ("text value", lambda r, q: "1 qid:%s 1:2 2:x" % q),
    ("text id", lambda r, q: "1 qid:%s a:2" % q),
    ("wrong separator", lambda r, q: "1 qid:%s 1=2" % q),
    ("second qid", lambda r, q: "1 qid:%s qid:%s 1:2" % (q, q)),
    ("qid after features", lambda r, q: "1 1:2 qid:%s" % q),
    ("text qid", lambda r, q: "1 qid:abc 1:2"),
    ("trailing junk", lambda r, q: "1 qid:%s 1:2 2:3x" % q),
    ("two separators", lambda r, q: "1 qid:%s 1:2:3" % q),
    ("bad first feature, no qid", lambda r, q: "1 foo"),
    ("label glued to text", lambda r, q: "1abc qid:%s 1:2" % q),
]


def run(ctx):
    from rankeval.dataset import Dataset
    from rankeval.dataset.svmlight_format import load_svmlight_file
    rng = ctx.rng
    load = lambda h: load_svmlight_file(h, query_id=True)

    def good():
        lines = random_file(rng, rng.choice([1, 2, 4, 7]), rng.choice([2, 5, 9]), wild=False, density=0.8)
        text = render(lines, rng, rng.random() < 0.5)
        ctx.mark(text)
        ok, v = load_text(ctx, text, rng.choice(HANDLES), load)
        return dict(op="good", lines=lines, out=out_of(ok, v))

    def bad(kind, pos, rows):
        lines = random_file(rng, rows, 6, wild=False, density=0.8)
        text = [l for l in render(lines, rng, rng.random() < 0.4).split("\n") if l]
        at = min(pos, len(text))
        line = kind[1](rng, str(rng.randrange(1, 9)))
        text.insert(at, line)
        # an empty line at the very end of the text would not be a line at all
        t = "\n".join(text) + ("\n" if line.strip() == "" or rng.random() < 0.7 else "")
        ctx.mark(t)
        f = load if rng.random() < 0.7 else (lambda h: Dataset.load(h))
        ok, v = load_text(ctx, t, rng.choice(HANDLES), f)
        names = (not ok) and (at + 1) in [int(n) for n in re.findall(r"\d+", str(ctx.last_exc).split("'")[-1])]
        return dict(op="bad", kind=kind[0], line=at + 1, text=t[:600], names=bool(names),
                    msg="" if ok else str(ctx.last_exc)[:200], out=dict(st="ok" if ok else "exc"))

    hist = []
    for kind in BAD:
        for rows in (0, 1, 3, 6):
            for pos in range(rows + 1):
                if rows == 6 and pos not in (0, 2, 6):
                    continue
                hist.append([good(), bad(kind, pos, rows), good()])
    for _ in range(400 if ctx.thorough else 40):
        hist.append([good() if rng.random() < 0.5 else bad(rng.choice(BAD), rng.randrange(0, 9), rng.randrange(0, 9))
                     for _ in range(rng.randrange(3, 12))])
    for h in hist:
        ctx.emit(dict(ev=h))
