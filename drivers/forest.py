"""Abstract forests, their rendering in every model format, and what is read
back from a loaded model.  A tree is {"o": token} or {"f": feature (0-based),
"t": token, "l": tree, "r": tree}; a forest is [{"w": token, "root": tree}]."""
import os
import struct
import numpy as np
from vlib.child import enc, encs, encm


def splits(t):
    return 0 if "o" in t else 1 + splits(t["l"]) + splits(t["r"])


def nodes(t):
    """all nodes, preorder"""
    st, out = [t], []
    while st:
        n = st.pop()
        out.append(n)
        if "o" not in n:
            st.append(n["r"])
            st.append(n["l"])
    return out


def shape_of(rng, n_splits, style="random"):
    """a random tree shape with n_splits splits"""
    if n_splits == 0:
        return None
    if style == "left":
        return (shape_of(rng, n_splits - 1, style), None)
    if style == "right":
        return (None, shape_of(rng, n_splits - 1, style))
    if style == "balanced":
        k = (n_splits - 1) // 2
        return (shape_of(rng, k, style), shape_of(rng, n_splits - 1 - k, style))
    if style == "zigzag":
        s = shape_of(rng, n_splits - 1, "zigzag")
        return (s, None) if n_splits % 2 else (None, s)
    k = rng.randrange(n_splits)
    return (shape_of(rng, k, style), shape_of(rng, n_splits - 1 - k, style))


def shape_from_case(c):
    """shapes generated by TLC: "." is a leaf, otherwise {"l": .., "r": ..}"""
    return None if c == "." else (shape_from_case(c["l"]), shape_from_case(c["r"]))


def fill(shape, split, leaf):
    """split() -> (feature, token), leaf() -> token, called in preorder"""
    if shape is None:
        return {"o": leaf()}
    f, t = split()
    l = fill(shape[0], split, leaf)
    return {"f": f, "t": t, "l": l, "r": fill(shape[1], split, leaf)}


def dyadic(rng, lo=-16, hi=16, den=8):
    """short exact decimal of a multiple of 1/den"""
    v = rng.randrange(lo * den, hi * den + 1) / float(den)
    return repr(v)


def token(rng, style):
    """decimal tokens of values"""
    if style == "dyadic":
        return dyadic(rng)
    if style == "int":
        return str(rng.randrange(-9, 10))
    if style == "double":
        return repr(rng.uniform(-3, 3) * 10.0 ** rng.randrange(-8, 8))
    if style == "short":
        return "%g" % rng.uniform(-10, 10)
    if style == "big":
        return repr(float(rng.choice([1, -1]) * rng.randrange(2 ** 23, 2 ** 31)))
    if style == "tiny":
        return rng.choice(["1e-40", "-1e-40", "1.4e-45", "0", "1e-30"])
    raise ValueError(style)


def forest(rng, n_trees, n_splits, nf, tstyle="dyadic", ostyle=None, weights=("1", "0.5", "0.1", "2"), unique=False,
           shapes=None, shape_style="random"):
    """random forest; unique=True gives every leaf of a tree a different output"""
    out = []
    for k in range(n_trees):
        if shapes is not None:
            sh = shapes[k]
        else:
            ns = n_splits if isinstance(n_splits, int) else rng.choice(n_splits)
            sh = shape_of(rng, ns, shape_style)
        cnt = [rng.randrange(0, 50)]

        def leaf():
            if unique:
                cnt[0] += 1
                return repr(cnt[0] / 8.0)
            return token(rng, ostyle or tstyle)
        out.append({"w": rng.choice(weights), "root": fill(sh, lambda: (rng.randrange(nf), token(rng, tstyle)), leaf)})
    return out


def max_feature(fr):
    return max([n["f"] for t in fr for n in nodes(t["root"]) if "f" in n] or [0])


# ---------------------------------------------------------------- writers
def quickrank(fr, path, rng=None):
    """rng: write the two children of a split in any order (their position says which they are)"""
    out = ["<ranker>\n\t<info>\n\t\t<type>MART</type>\n\t\t<trees>%d</trees>\n\t\t<leaves>8</leaves>\n"
           "\t\t<shrinkage>0.1</shrinkage>\n\t</info>\n\t<ensemble>\n" % len(fr)]

    def rec(n, pos, ind):
        p = "\t" * ind
        out.append('%s<split%s>\n' % (p, ' pos="%s"' % pos if pos else ""))
        if "o" in n:
            out.append("%s\t<output>%s</output>\n" % (p, n["o"]))
        else:
            out.append("%s\t<feature> %d </feature>\n%s\t<threshold> %s </threshold>\n" % (p, n["f"] + 1, p, n["t"]))
            if rng is not None and rng.random() < 0.3:
                rec(n["r"], "right", ind + 1)
                rec(n["l"], "left", ind + 1)
            else:
                rec(n["l"], "left", ind + 1)
                rec(n["r"], "right", ind + 1)
        out.append("%s</split>\n" % p)
    for k, t in enumerate(fr):
        out.append('\t\t<tree id="%d" weight="%s">\n' % (k + 1, t["w"]))
        rec(t["root"], None, 3)
        out.append("\t\t</tree>\n")
    out.append("\t</ensemble>\n</ranker>\n")
    open(path, "w").write("".join(out))


def xgboost(fr, path, stats=False):
    out = []
    for k, t in enumerate(fr):
        out.append("booster[%d]:\n" % k)
        ids, cnt = {}, [0]
        level = [t["root"]]          # XGBoost numbers nodes level by level
        while level:
            nxt = []
            for n in level:
                ids[id(n)] = cnt[0]
                cnt[0] += 1
                if "o" not in n:
                    nxt += [n["l"], n["r"]]
            level = nxt

        def rec(n, d):
            p = "\t" * d
            if "o" in n:
                out.append("%s%d:leaf=%s%s\n" % (p, ids[id(n)], n["o"], ",cover=12.5" if stats else ""))
            else:
                out.append("%s%d:[f%d<%s] yes=%d,no=%d,missing=%d%s\n" % (p, ids[id(n)], n["f"], n["t"], ids[id(n["l"])],
                           ids[id(n["r"])], ids[id(n["l"])], ",gain=3.5,cover=20" if stats else ""))
                rec(n["l"], d + 1)
                rec(n["r"], d + 1)
        rec(t["root"], 0)
    open(path, "w").write("".join(out))


def scikit(fr, path, base=None, lr=None):
    out = []
    if base is not None:
        out.append("base_score=%s\n" % base)
    if lr is not None:
        out.append("learning_rate=%s\n" % lr)
    for k, t in enumerate(fr):
        out.append("booster[%d] [%s]:\n" % (k, " ".join("f%d" % n["f"] for n in nodes(t["root"]) if "f" in n)))
        cnt = [0]

        def rec(n, d):
            p, i = "\t" * d, cnt[0]
            cnt[0] += 1
            if "o" in n:
                out.append("%s%d:leaf=%s\n" % (p, i, n["o"]))
            else:
                out.append("%s%d:[f%d<=%s]\n" % (p, i, n["f"], n["t"]))
                rec(n["l"], d + 1)
                rec(n["r"], d + 1)
        rec(t["root"], 1)
    open(path, "w").write("".join(out))


def _numbered(rng, root):
    """split and leaf numbers: root split is 0, every other number is free"""
    sp = [n for n in nodes(root) if "o" not in n]
    lv = [n for n in nodes(root) if "o" in n]
    rest = sp[1:]
    rng.shuffle(rest)
    rng.shuffle(lv)
    sp = sp[:1] + rest
    num = {}
    for k, n in enumerate(sp):
        num[id(n)] = k
    for k, n in enumerate(lv):
        num[id(n)] = -(k + 1)
    return sp, lv, num


def lightgbm(rng, fr, path, shrinkage="0.1", variant=0):
    out = ["tree\nnum_class=1\nnum_tree_per_iteration=1\nlabel_index=0\nmax_feature_idx=%d\nobjective=lambdarank\n"
           "feature_names=%s\n" % (max_feature(fr), " ".join("Column_%d" % i for i in range(max_feature(fr) + 1)))]
    written = []
    for k, t in enumerate(fr):
        sp, lv, num = _numbered(rng, t["root"])
        written.append(dict(features=[n["f"] for n in sp], thresholds=[n["t"] for n in sp],
                            left=[num[id(n["l"])] for n in sp], right=[num[id(n["r"])] for n in sp], leaves=[n["o"] for n in lv]))
        j = lambda a: " ".join(str(x) for x in a)
        w = written[-1]
        out.append("\nTree=%d\nnum_leaves=%d\n" % (k, len(lv)))
        if variant == 1:
            out.append("num_cat=0\n")
        out.append("split_feature=%s\nsplit_gain=%s\nthreshold=%s\ndecision_type=%s\n" %
                   (j(w["features"]), j("1.5" for _ in sp), j(w["thresholds"]), j(2 for _ in sp)))
        if variant == 0:
            out.append("default_value=%s\n" % j(0 for _ in sp))
        out.append("left_child=%s\nright_child=%s\n" % (j(w["left"]), j(w["right"])))
        if variant == 0:
            out.append("leaf_parent=%s\n" % j(0 for _ in lv))
        out.append("leaf_value=%s\nleaf_count=%s\ninternal_value=%s\ninternal_count=%s\nshrinkage=%s\n" %
                   (j(w["leaves"]), j(10 for _ in lv), j("0" for _ in sp), j(20 for _ in sp), shrinkage))
        if variant == 0:
            out.append("has_categorical=0\n")
        out.append("\n")
    out.append("\n\nfeature importances:\nColumn_1=3\n\npandas_categorical:null")
    open(path, "w").write("".join(out))
    return written


def jforests(rng, fr, path):
    out, written = ["<Ensemble>\n"], []
    j = lambda a: " ".join(str(x) for x in a)
    for t in fr:
        sp, lv, num = _numbered(rng, t["root"])
        w = dict(features=[n["f"] for n in sp], thresholds=[n["t"] for n in sp],
                 left=[num[id(n["l"])] for n in sp], right=[num[id(n["r"])] for n in sp], leaves=[n["o"] for n in lv])
        written.append(w)
        out.append('\t<Tree leaves="%d" weight="%s">\n\t\t<SplitFeatures>%s</SplitFeatures>\n\t\t<LeftChildren>%s</LeftChildren>\n'
                   "\t\t<RightChildren>%s</RightChildren>\n\t\t<Thresholds>%s</Thresholds>\n\t\t<OriginalThresholds>%s"
                   "</OriginalThresholds>\n\t\t<LeafOutputs>%s</LeafOutputs>\n\t</Tree>\n" %
                   (len(lv), t["w"], j(w["features"]), j(w["left"]), j(w["right"]), j(range(7, 7 + len(sp))),
                    j(w["thresholds"]), j(w["leaves"])))
    out.append("</Ensemble>\n")
    open(path, "w").write("".join(out))
    return written


def coreml(rng, fr, path, le=lambda: False, base=0.0):
    """CatBoost numbers the leaves of a tree first and its root last"""
    from coremltools.proto import Model_pb2, TreeEnsemble_pb2
    m = Model_pb2.Model()
    m.specificationVersion = 1
    nf = max_feature(fr) + 1
    for k in range(nf):
        i = m.description.input.add()
        i.name = "feature_%d" % k
        i.type.doubleType.SetInParent()
    o = m.description.output.add()
    o.name = "prediction"
    o.type.multiArrayType.shape.append(1)
    o.type.multiArrayType.dataType = 65600
    m.description.predictedFeatureName = "prediction"
    te = m.treeEnsembleRegressor.treeEnsemble
    te.numPredictionDimensions = 1
    te.basePredictionValue.append(base)
    B = TreeEnsemble_pb2.TreeEnsembleParameters.TreeNode.TreeNodeBehavior
    written = []
    for k, t in enumerate(fr):
        order = list(reversed(_levels(t["root"])))      # deepest level first, root last
        order = [n for n in order if "o" in n] + [n for n in order if "o" not in n]
        num = {id(n): q for q, n in enumerate(order)}
        wt = []
        for q, n in enumerate(order):
            x = te.nodes.add()
            x.treeId, x.nodeId = k, q
            if "o" in n:
                x.nodeBehavior = B.Value("LeafNode")
                e = x.evaluationInfo.add()
                e.evaluationIndex, e.evaluationValue = 0, float(n["o"])
                wt.append(dict(kind="leaf", f=0, t="0", yes=0, no=0, o=n["o"]))
            else:
                x.branchFeatureIndex, x.branchFeatureValue = n["f"], float(n["t"])
                if le():
                    x.nodeBehavior = B.Value("BranchOnValueLessThanEqual")
                    x.trueChildNodeId, x.falseChildNodeId = num[id(n["l"])], num[id(n["r"])]
                else:
                    x.nodeBehavior = B.Value("BranchOnValueGreaterThan")
                    x.trueChildNodeId, x.falseChildNodeId = num[id(n["r"])], num[id(n["l"])]
                wt.append(dict(kind="le" if x.nodeBehavior == B.Value("BranchOnValueLessThanEqual") else "gt", f=n["f"],
                               t=n["t"], yes=x.trueChildNodeId, no=x.falseChildNodeId, o="0"))
        written.append(wt)
    with open(path, "wb") as f:
        f.write(m.SerializeToString())
    return written


def _levels(root):
    out, level = [], [root]
    while level:
        out += level
        level = [c for n in level if "o" not in n for c in (n["l"], n["r"])]
    return out


# ---------------------------------------------------------------- reading back
def arrays(m):
    """the documented arrays of a loaded model"""
    return dict(root=[int(v) for v in m.trees_root], w=encs(m.trees_weight), l=[int(v) for v in m.trees_left_child],
                r=[int(v) for v in m.trees_right_child], v=encs(m.trees_nodes_value), f=[int(v) for v in m.trees_nodes_feature],
                n_trees=int(m.n_trees), n_nodes=int(m.n_nodes))


def load(path, fmt="QuickRank", **kw):
    from rankeval.model import RTEnsemble
    return RTEnsemble(path, format=fmt, **kw)


def f32(tok):
    return np.float32(float(tok))


def probe_rows(rng, fr, nf, n):
    """rows whose cells sit on, just below and just above the thresholds used"""
    cells = {c: [] for c in range(nf)}
    for t in fr:
        for nd in nodes(t["root"]):
            if "f" in nd:
                v = f32(nd["t"])
                cells[nd["f"]] += [v, np.nextafter(v, np.float32(np.inf)), np.nextafter(v, np.float32(-np.inf))]
    X = np.zeros((n, nf), dtype=np.float32)
    for i in range(n):
        for c in range(nf):
            if cells[c] or nf < 1000:
                X[i, c] = rng.choice(cells[c]) if cells[c] and rng.random() < 0.8 else np.float32(rng.uniform(-20, 20))
    return X


def dataset(X, y=None, q=None, sizes=None):
    from rankeval.dataset import Dataset
    n = X.shape[0]
    if y is None:
        y = np.zeros(n, dtype=np.float32)
    if q is None:
        q = np.zeros(n, dtype=np.int32) if sizes is None else np.repeat(np.arange(1, len(sizes) + 1), sizes).astype(np.int32)
    return Dataset(X, y, q)
