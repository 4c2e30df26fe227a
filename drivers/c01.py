"""Every small sparsity pattern (from SvmGen) and random larger files."""
from svmcommon import *


def one(ctx, lines, handle, comments, via):
    from rankeval.dataset import Dataset
    from rankeval.dataset.svmlight_format import load_svmlight_file, load_svmlight_files
    noq = lines[0]["q"] == ""
    text = render(lines, ctx.rng, comments, final_newline=ctx.rng.random() < 0.8)
    wantq = True
    if via == "dataset" and not noq:
        # rows of a query must be together for a Dataset
        order, groups = [], {}
        for l in lines:
            if l["q"] not in groups:
                groups[l["q"]] = []
                order.append(l["q"])
            groups[l["q"]].append(l)
        lines = [l for q in order for l in groups[q]]
        text = render(lines, ctx.rng, comments)
        f = lambda h: dataset_rows(Dataset.load(h))
    elif via == "noq":
        wantq = False
        f = lambda h: load_svmlight_file(h)
    elif via == "many":
        f = lambda h: load_svmlight_files([h], query_id=True)
    else:
        f = lambda h: load_svmlight_file(h, query_id=True)
    ctx.mark(text)
    ok, v = load_text(ctx, text, handle, f)
    ctx.emit(dict(lines=lines, text=text[:400], handle=handle, via=via, wantq=wantq, out=out_of(ok, v, wantq)))


def run(ctx):
    rng = ctx.rng
    vias = ["file", "file", "dataset", "noq", "many"]
    k = 0
    for case in ctx.cases[0]:
        lines = [dict(lab=str(r % 3), q=str(r // 2 + 1), f=[[fid, str(100 * (r + 1) + fid)] for fid in row])
                 for r, row in enumerate(case["rows"])]
        k += 1
        one(ctx, lines, HANDLES[k % 6], k % 3 == 0, "file" if k % 2 else vias[k % 5])
    n = 1500 if ctx.thorough else 150
    for _ in range(n):
        rows, maxf = rng.choice([(1, 5), (3, 8), (6, 12), (10, 40), (25, 20)])
        one(ctx, random_file(rng, rows, maxf, qids=rng.random() < 0.85), rng.choice(HANDLES), rng.random() < 0.5,
            rng.choice(vias))
    for _ in range(12 if ctx.thorough else 3):
        one(ctx, random_file(rng, 60, 300, qids=True), "path", True, "file")
    one(ctx, random_file(rng, 400, 6), "gz", False, "dataset")
