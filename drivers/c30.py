import re, html, io
from scorecommon import *


def number(s):
    try:
        return enc(Fraction(s.strip()))
    except (ValueError, ZeroDivisionError):
        try:
            return enc(float(s))
        except ValueError:
            return "nan"


def clean(s):
    return re.sub(r"\s+", "", html.unescape(re.sub(r"<[^<>]*>", "", s))).replace("[", "").replace("]", "")


def label(s):
    """what a node label says"""
    parts = [p for p in re.split(r"\\n|<br */?>|\n", s) if p]
    if s.strip() in ("(...)", "..."):
        return dict(kind="crop", name="", x="0")
    for p in parts:
        t = re.split(r"<=|&le;|≤", p)
        if len(t) == 2:
            return dict(kind="split", name=clean(t[0]), x=number(t[1]))
    for p in parts:
        if p.strip().startswith("output"):
            return dict(kind="leaf", name="", x=number(p.split("=", 1)[1]))
    return dict(kind="?", name=s[:50], x="0")


def parse(text):
    """nodes and edges of a drawing"""
    nodes, edges, true = [], [], "none"
    for st in re.split(r" ;\n|;\n", text):
        st = st.strip()
        st = re.sub(r"^digraph.*?\{\s*", "", st)
        e = re.match(r"^(\w+) -> (\w+)(.*)$", st, re.S)
        n = re.match(r"^(\d+) \[(.*)\]$", st, re.S)
        if e:
            edges.append([e.group(1), e.group(2)])
            if '"True"' in e.group(3):
                true = e.group(2)
        elif n:
            m = re.search(r'label="((?:[^"\\]|\\.)*)"', n.group(2)) or re.search(r"label=<(.*?)>(?:, fillcolor|$)", n.group(2), re.S)
            nodes.append(dict(id=n.group(1), **label(m.group(1) if m else "?")))
    kids = [b for _, b in edges]
    roots = [n["id"] for n in nodes if n["id"] not in kids]
    first = [b for a, b in edges if a in roots]
    return dict(st="ok", g=dict(nodes=nodes, edges=edges), true=true, first=first[0] if first else "none")


def one(ctx, m, fr, tree, depth=None, names=None, scored=None, precision=3, to="str", **kw):
    from rankeval.visualization.topological import export_graphviz
    need = max_feature_used(m)
    before = flat(m)
    rec = dict(m=before, tree=tree, max=-1 if depth is None else depth, precision=precision,
               names=[re.sub(r"\s+", "", n) for n in names] if names else [], short=bool(names) and len(names) < need,
               fnames=["f%d" % k for k in range(need)])
    if depth is not None:
        kw["max_depth"] = depth
    if names is not None:
        kw["feature_names"] = names
    if scored is not None:
        kw["output_leaves"] = m.score(scored, detailed=True)[2]
    if precision != 3:
        kw["precision"] = precision
    if tree or ctx.rng.random() < 0.5:
        kw["tree_id"] = tree
    ctx.mark(dict(m=before, kw=repr(kw)[:500]))

    def f():
        if to == "str":
            return parse(export_graphviz(m, **kw))
        p = ctx.path("t.dot")
        if to == "path":
            export_graphviz(m, out_file=p, **kw)
        else:
            with io.open(p, "w", encoding="utf-8") as h:
                export_graphviz(m, out_file=h, **kw)
        with io.open(p, encoding="utf-8") as h:
            return parse(h.read())
    ok, v = ctx.call(f)
    rec["out"] = v if ok else dict(st="exc", exc=v, msg=str(ctx.last_exc)[:200])
    rec["after"] = flat(m) == before
    ctx.emit(rec)


def max_feature_used(m):
    return max(list(m.trees_nodes_feature) + [-1]) + 1


def run(ctx):
    from loaders import shape
    rng = ctx.rng
    for k, c in enumerate(ctx.cases[0]):
        sh = [shape(s) for s in c["shapes"]]
        fr = forest(rng, len(sh), 0, 3, "dyadic", shapes=sh, unique=True)
        m = model(ctx, fr, ["QuickRank", "CatBoost", "XGBoost"][k % 3])
        t = rng.randrange(len(sh))
        one(ctx, m, fr, t)
        one(ctx, m, fr, t, depth=k % 4)
    for k in range(600 if ctx.thorough else 140):
        nt = rng.choice([1, 2, 4, 9])
        nf = rng.choice([1, 3, 12])
        fmt = rng.choice(FMTS)
        fr = forest(rng, nt, [j for j in range(10) if j or fmt != "Jforests"], nf, rng.choice(["dyadic", "short", "int"]), "short",
                    shape_style=rng.choice(["random", "left", "right", "balanced"]))
        m = model(ctx, fr, fmt)
        need = max_feature_used(m)
        kw = {}
        for o in ("highlight_leaves", "leaves_parallel", "node_ids", "rounded", "special_characters", "label_show", "proportion"):
            if rng.random() < 0.3:
                kw[o] = True
        if rng.random() < 0.4:
            kw["label"] = rng.choice(["all", "leaves"])
        names = None
        if rng.random() < 0.5:
            n = max(1, need + rng.choice([0, 0, 1, 5, -1]))
            names = [rng.choice(["bm25_%d", "feat %d", "x%d.y", "Ft%d"]) % j for j in range(n)]
        one(ctx, m, fr, rng.randrange(nt), depth=rng.choice([None, None, 0, 1, 2, 3, 12]), names=names,
            scored=dataset(probe_rows(rng, fr, max(need, 1), 9)) if rng.random() < 0.4 else None,
            precision=rng.choice([3, 3, 0, 1, 6]), to=rng.choice(["str", "path", "file"]), **kw)
    for style, ns in (("left", 50), ("zigzag", 40), ("balanced", 127)):
        fr = forest(rng, 2, ns, 200, "short", shape_style=style)
        m = model(ctx, fr)
        one(ctx, m, fr, 1, names=["n%d" % j for j in range(200)])
        one(ctx, m, fr, 0, depth=5)
