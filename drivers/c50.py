"""Drawings of trees with what the instances of a dataset did in them."""
import re, html
from c30 import *


def palette():
    import matplotlib.pyplot as plt
    c = plt.get_cmap("coolwarm")
    return np.array([[round(v * 255) for v in c(k)[:3]] for k in range(256)])


PALETTE = []


def warmth(colour):
    """place of a colour between cold (0) and warm (255); -1: white, -2: grey, -3: none, -4: another one"""
    if colour is None:
        return -3
    if re.match(r"^#[fF]{6}", colour):
        return -1
    if re.match(r"^#[cC]0[cC]0[cC]0", colour):
        return -2
    m = re.match(r"^#([0-9a-fA-F]{6})([0-9a-fA-F]{2})?$", colour)
    if not m or (m.group(2) and int(m.group(2), 16) < 32):     # or nothing to be seen
        return -4
    if not PALETTE:
        PALETTE.append(palette())
    rgb = np.array([int(m.group(1)[k:k + 2], 16) for k in (0, 2, 4)])
    far = np.abs(PALETTE[0] - rgb).max(axis=1)
    return int(far.argmin()) if far.min() <= 1 else -4


def notes(text):
    """for every node: the identifier, count and percentage it says, and its colour; the ranks"""
    out, ranks = {}, []
    for st in re.split(r" ;\n|;\n", re.sub(r"^digraph.*?\{\s*", "", text.strip(), flags=re.S)):
        st = st.strip()
        r = re.match(r"^\{\s*rank=same\s*;(.*)\}$", st, re.S) or re.match(r"^\{\s*rank=same\s*;(.*)$", st, re.S)
        n = re.match(r"^(\d+) \[(.*)\]$", st, re.S)
        if r:
            ranks.append(re.findall(r"\d+", r.group(1)))
        elif n:
            m = re.search(r'label="((?:[^"\\]|\\.)*)"', n.group(2)) or re.search(r"label=<(.*?)>(?:, fillcolor|$)", n.group(2), re.S)
            says = html.unescape(re.sub(r"\\n|<br */?>", "\n", m.group(1) if m else ""))
            i = re.search(r"^node #(\d+)$", says, re.M)
            c = re.search(r"^counts = (\d+)(?: \(([^)%]*)%\))?$", says, re.M)
            f = re.search(r'fillcolor="([^"]*)"', n.group(2))
            out[n.group(1)] = dict(id=i.group(1) if i else "", count=int(c.group(1)) if c else -1,
                                   share=number(c.group(2)) if c and c.group(2) else "none", colour=warmth(f.group(1) if f else None))
    return out, ranks


def run(ctx):
    from rankeval.visualization.topological import export_graphviz
    rng = ctx.rng
    for k in range(900 if ctx.thorough else 160):
        nt, nf, fmt = rng.choice([1, 2, 4]), rng.choice([1, 3, 8]), rng.choice(FMTS)
        fr = forest(rng, nt, [j for j in range(10) if j or fmt != "Jforests"], nf, rng.choice(["dyadic", "short", "int"]), "short",
                    shape_style=rng.choice(["random", "left", "right", "balanced"]))
        if rng.random() < 0.15:      # equal outputs
            v = rng.choice(["0", "0.5", "-2"])
            for t in fr:
                for nd in nodes(t["root"]):
                    if "o" in nd:
                        nd["o"] = v
        if rng.random() < 0.2:       # of another size than the thresholds
            for t in fr:
                for nd in nodes(t["root"]):
                    if "f" in nd:
                        nd["t"] = repr(float(f32(nd["t"])) * 4096)
        m = model(ctx, fr, fmt)
        need = max(max_feature_used(m), 1)
        kw = {o: True for o in ("highlight_leaves", "leaves_parallel", "node_ids", "rounded", "special_characters", "label_show", "proportion")
              if rng.random() < 0.5}
        if rng.random() < 0.6:
            kw["label"] = rng.choice(["all", "leaves", "leaves"])
        tree = rng.randrange(nt)
        depth = rng.choice([None, None, None, 0, 1, 2, 3])
        rec = dict(m=flat(m), tree=tree, max=-1 if depth is None else depth, X=[], kw={o: kw.get(o) is True for o in
                   ("highlight_leaves", "leaves_parallel", "node_ids", "label_show", "proportion")}, label=kw.get("label", "all"), scored=False)
        if rng.random() < 0.8:
            rows = probe_rows(rng, fr, need, rng.choice([1, 2, 5, 12]))
            if rng.random() < 0.3:
                rows = np.repeat(rows[:1], rng.choice([1, 3]), axis=0)        # all of them in one leaf
            leaves = m.score(dataset(rows), detailed=True)[2]
            if rng.random() < 0.3:          # some of the instances only
                pick = [rng.randrange(len(rows)) for _ in range(rng.choice([1, 2, 4]))]
                rows, leaves = rows[pick], leaves[pick]
            if rng.random() < 0.2:
                leaves = leaves.astype(np.int64)
            kw["output_leaves"] = leaves
            rec.update(scored=True, X=encm(rows))
        if depth is not None:
            kw["max_depth"] = depth
        kw["tree_id"] = tree
        kw["precision"] = rng.choice([0, 3, 6])
        ctx.mark(dict(m=rec["m"], X=rec["X"], kw={k: v for k, v in kw.items() if k != "output_leaves"}))

        def f():
            text = export_graphviz(m, **kw)
            p = parse(text)
            says, ranks = notes(text)
            for n in p["g"]["nodes"]:
                n.update(says={}, **{})
                n["says"] = says.get(n["id"], dict(id="", count=-1, share="none", colour=-3))
            return dict(st="ok", g=p["g"], ranks=ranks)
        ok, v = ctx.call(f)
        rec["out"] = v if ok else dict(st="exc", exc=v, msg=str(ctx.last_exc)[:200])
        ctx.emit(rec)
