"""Runs in a child process with the built tree on PYTHONPATH: executes one
driver, which calls the real code and records observations as JSON lines."""
import argparse, importlib, json, os, random, sys, traceback, warnings
from fractions import Fraction


def enc(x):
    """exact encoding of a number for the specification"""
    import numpy as np
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return str(int(x))
    if isinstance(x, Fraction):
        return str(x.numerator) if x.denominator == 1 else "%d/%d" % (x.numerator, x.denominator)
    v = float(x)
    if v != v:
        return "nan"
    if v in (float("inf"), float("-inf")):
        return "inf" if v > 0 else "-inf"
    n, d = v.as_integer_ratio()
    return str(n) if d == 1 else "%d/%d" % (n, d)


def encs(a):
    return [enc(v) for v in a]


def encm(a):
    return [encs(r) for r in a]


def plain(x):
    """what a library returned in place of a plain number or string"""
    import numpy as np
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, np.ndarray):
        return x.tolist()
    return repr(x)[:100]


class Ctx(object):
    def __init__(self, a):
        self.tier, self.seed = a.tier, a.seed
        self.thorough = a.tier == "thorough"
        self.rng = random.Random("%s/%s" % (a.seed, a.prop))
        self.scratch = a.scratch
        self.cases = []
        if a.cases:
            for f in a.cases.split(","):
                self.cases.append([json.loads(l) for l in open(f) if l.strip()])
        self._out = open(a.out, "a")
        self._mark = a.mark
        self.n = 0

    def emit(self, rec):
        self._out.write(json.dumps(rec, separators=(",", ":"), default=plain) + "\n")
        self.n += 1

    def flush(self):
        self._out.flush()
        os.fsync(self._out.fileno())

    def mark(self, what):
        """remember what is being executed, should the process die"""
        if not isinstance(what, str):
            what = json.dumps(what)
        fd = os.open(self._mark, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
        os.write(fd, what[:20000].encode())
        os.close(fd)

    def call(self, f, *args, **kw):
        """(True, value) or (False, exception class name)"""
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                return True, f(*args, **kw)
        except Exception as e:  # noqa: the observation is that it raised
            self.last_exc = e
            return False, type(e).__name__

    def path(self, name):
        return os.path.join(self.scratch, name)


def main():
    p = argparse.ArgumentParser()
    for n in ("prop", "driver", "out", "mark", "scratch", "tier", "cases", "args"):
        p.add_argument("--" + n, default="")
    p.add_argument("--seed", type=int, default=1)
    a = p.parse_args()
    warnings.simplefilter("ignore")
    ctx = Ctx(a)
    ctx.args = a.args
    sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), "drivers"))
    ctx.mark("importing rankeval")
    try:
        import rankeval  # noqa
        import rankeval.dataset, rankeval.model, rankeval.metrics, rankeval.analysis  # noqa
    except Exception:
        traceback.print_exc()
        ctx.flush()
        sys.exit(17)     # the library cannot even be imported
    mod = importlib.import_module(a.driver)
    try:
        mod.run(ctx)
    except Exception as e:
        # drivers run through on the tree they were written for
        traceback.print_exc()
        ctx.flush()
        here = os.path.dirname(os.path.abspath(rankeval.__file__)) + os.sep
        if isinstance(e, (MemoryError, OSError)):
            sys.exit(1)
        if any(os.path.abspath(f.filename).startswith(here) for f in traceback.extract_tb(e.__traceback__)):
            sys.exit(18)     # the library raised where it has to answer
        if isinstance(e, (AttributeError, TypeError, ValueError, LookupError, ArithmeticError)):
            sys.exit(19)     # an answer that has not the documented form
        sys.exit(1)
    ctx.flush()
    print("driver done: %d observations" % ctx.n)


if __name__ == "__main__":
    main()
