"""Model files that need what the library does not have: any place of any tree
of a file of any format may ask for it.  Harmless variations of the same files
have to be loaded as what they were."""
import logging
logging.disable(logging.CRITICAL)
import re
import zlib
from loaders import *


def replace(text, pattern, new, k):
    """the k-th match of the pattern replaced"""
    found = list(re.finditer(pattern, text, re.M))
    if not found:
        return None
    m = found[k % len(found)]
    return text[:m.start()] + (new(m) if callable(new) else new) + text[m.end():]


def one_of(rng, value):
    """one of the numbers of a line becomes another"""
    def new(m):
        parts = m.group(2).split()
        if not parts:
            return m.group(0)
        parts[rng.randrange(len(parts))] = value
        return m.group(1) + " ".join(parts)
    return new


def run(ctx):
    rng = ctx.rng

    def taken(path, fmt):
        ok, v = ctx.call(lambda: arrays(load(path, fmt)))
        return ok, v

    def emit(fmt, needs, path, plain):
        before = open(path, "rb").read()
        ctx.mark(dict(fmt=fmt, needs=needs, file=before[:6000].decode("latin1")))
        ok, v = taken(path, fmt)
        ctx.emit(dict(op="load", fmt=fmt, needs=needs, case=zlib.crc32(before), taken=ok, same=ok and v == plain, intact=open(path, "rb").read() == before))

    def texts(fmt, write, changes, fr):
        """changes: (what is needed, or nothing; pattern; replacement)"""
        p = ctx.path("m.txt")
        write(fr, p)
        text = open(p).read()
        ok, plain = taken(p, fmt)
        emit(fmt, [], p, plain)
        n = sum(1 for t in fr for x in nodes(t["root"]))
        for needs, pattern, new in changes:
            for at in {0, rng.randrange(n), n - 1 if pattern is None else -1}:
                t = replace(text, pattern, new, at)
                if t is None or (needs and t == text):
                    continue
                with open(p, "w") as f:
                    f.write(t)
                emit(fmt, [needs] if needs else [], p, plain)
        os.unlink(p)

    for k in range(120 if ctx.thorough else 22):
        nf = rng.choice([2, 5, 30])
        fr = forest(rng, rng.choice([1, 2, 3, 8]), [1, 2, 3, 7], nf, rng.choice(["dyadic", "double"]))
        light = [(None, r"^num_class=1$", "num_class=1"), (None, r"^objective=lambdarank$", "objective=regression"), (None, r"^num_leaves=", "num_cat=0\nnum_leaves="),
                 (None, r"^shrinkage=", "is_linear=0\nshrinkage="), (None, r"^leaf_count=.*$", lambda m: m.group(0) + "\ninternal_weight=0")]
        light += [("classes", r"^num_class=1$", "num_class=%d" % rng.choice([2, 3, 10])), ("classes", r"^num_tree_per_iteration=1$", "num_tree_per_iteration=%d" % rng.choice([2, 3, 11])),
                  ("linear leaves", r"^shrinkage=", "is_linear=1\nshrinkage=")]
        light += [("categories", r"^(decision_type=)(.*)$", one_of(rng, v)) for v in ("1", "9", rng.choice(["3", "5", "7", "11"]))]
        light += [("missing values", r"^(decision_type=)(.*)$", one_of(rng, v)) for v in ("6", "10", rng.choice(["4", "8"]))]
        for variant in (0, 1):
            more = []
            if variant == 0:
                more = [("default values", r"^(default_value=)(.*)$", one_of(rng, v)) for v in ("1", "-0.5", "1e-20")]
                more += [("categories", r"^has_categorical=0$", "has_categorical=1"), (None, r"^(default_value=)(.*)$", one_of(rng, "0.0"))]
            texts("LightGBM", lambda fr, p: lightgbm(rng, fr, p, variant=variant), light + more, fr)
        f, t = rng.randrange(nf), rng.choice(["0.5", "3", "-2.25"])
        conds = [("indicator", "[f%d]" % f), ("categories", "[f%d:{1,3}]" % f), ("named features", "[age<%s]" % t), ("named features", "[f%dx<%s]" % (f, t)),
                 ("another comparison", "[f%d<=%s]" % (f, t)), ("another comparison", "[f%d>%s]" % (f, t)), ("another comparison", "[f%d==%s]" % (f, t))]
        texts("XGBoost", lambda fr, p: xgboost(fr, p, stats=k % 2 == 0),
              [(n, r"\[f\d+<[^\]]*\]", c) for n, c in conds] +
              [("several outputs", r"leaf=[^,\n]*", "leaf=[0.5,0.25]"), ("several outputs", r"leaf=[^,\n]*", "leaf={0.5,0.25}"),
               (None, r"missing=\d+", "missing=1"), (None, r"^booster\[0\]:$", "booster[0]")], fr)
        conds = [("named features", "[age<=%s]" % t), ("another comparison", "[f%d<%s]" % (f, t)), ("another comparison", "[f%d>%s]" % (f, t)), ("indicator", "[f%d]" % f)]
        texts("ScikitLearn", lambda fr, p: scikit(fr, p, "0.5", "0.1"),
              [(n, r"\[f\d+<=[^\]]*\]", c) for n, c in conds] + [("classes", r"leaf=.*$", "leaf=c%d" % rng.randrange(4)),
               ("several outputs", r"leaf=.*$", "leaf=[0.5 0.25]")], fr)
        cat(ctx, fr, emit, taken)
    # formats
    fr = forest(rng, 3, [2, 3], 4, "dyadic")
    p = ctx.path("q.xml")
    quickrank(fr, p)
    m = load(p)
    for fmt in ("QuickRank", "LightGBM", "XGBoost", "ScikitLearn", "Jforests", "CatBoost", "", "JSON", "PMML", None, 7):
        for there in (True, False):
            out = ctx.path("saved.%s" % there)
            if there:
                with open(out, "w") as f:
                    f.write("keep me")
            before = arrays(m)
            ok, v = ctx.call(lambda: m.save(out, format=fmt))
            kept = (os.path.exists(out) and open(out).read() == "keep me") if there else not os.path.exists(out)
            ctx.emit(dict(op="save", fmt=str(fmt), told=ok and v is not False, kept=kept, intact=arrays(m) == before))
            if os.path.exists(out):
                os.unlink(out)
    for fmt in ("", "JSON", "PMML", "RankLib", None, 7):
        ok, v = ctx.call(lambda: load(p, fmt))
        ctx.emit(dict(op="format", fmt=str(fmt), taken=ok))


def cat(ctx, fr, emit, taken):
    from coremltools.proto import Model_pb2, TreeEnsemble_pb2
    rng = ctx.rng
    B = TreeEnsemble_pb2.TreeEnsembleParameters.TreeNode.TreeNodeBehavior
    p = ctx.path("m.coreml")
    coreml(rng, fr, p, lambda: rng.random() < 0.5)
    whole = open(p, "rb").read()
    ok, plain = taken(p, "CatBoost")
    emit("CatBoost", [], p, plain)

    def variant(needs, change):
        m = Model_pb2.Model()
        m.ParseFromString(whole)
        if change(m) is False:
            return
        with open(p, "wb") as f:
            f.write(m.SerializeToString())
        emit("CatBoost", needs, p, plain)

    def compare(name, at):
        def change(m):
            sp = [n for n in m.treeEnsembleRegressor.treeEnsemble.nodes if n.nodeBehavior != B.Value("LeafNode")]
            if not sp:
                return False
            sp[at if at < 1 else rng.randrange(len(sp))].nodeBehavior = B.Value(name)
        return change

    def outputs(m):
        e = m.treeEnsembleRegressor.treeEnsemble
        e.numPredictionDimensions = 2
        e.basePredictionValue.append(0.0)
        for n in e.nodes:
            if n.nodeBehavior == B.Value("LeafNode"):
                x = n.evaluationInfo.add()
                x.evaluationIndex, x.evaluationValue = 1, 0.5

    def classifier(m):
        te = m.treeEnsembleRegressor.treeEnsemble
        m.treeEnsembleClassifier.treeEnsemble.CopyFrom(te)

    def empty(m):
        del m.treeEnsembleRegressor.treeEnsemble.nodes[:]
    for name in ("BranchOnValueLessThan", "BranchOnValueGreaterThanEqual", "BranchOnValueEqual", "BranchOnValueNotEqual"):
        for at in (0, -1, 1):
            variant(["another comparison"], compare(name, at))
    variant(["several outputs"], outputs)
    variant(["classes"], classifier)
    variant(["no trees"], empty)
    variant([], lambda m: setattr(m.treeEnsembleRegressor.treeEnsemble.nodes[0], "missingValueTracksTrueChild", True))
    os.unlink(p)
