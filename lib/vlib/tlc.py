"""Run TLC and read back what it says."""
import json, os, re, subprocess, tempfile
from .build import VERIF, CACHE

JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = os.path.join(VERIF, "spec")


class TlcError(Exception):
    pass


def java_classes():
    src = os.path.join(SPEC, "java", "Rat.java")
    import hashlib
    key = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    out = os.path.join(CACHE, "java", key)
    if not os.path.exists(os.path.join(out, "Rat.class")):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = tempfile.mkdtemp(dir=os.path.dirname(out))
        p = subprocess.run(["javac", "-cp", JARS, "-d", tmp, src], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT)
        if p.returncode != 0:
            raise TlcError("javac: " + p.stdout.decode())
        try:
            os.rename(tmp, out)
        except OSError:
            pass
    return out


def run(module, cfg=None, env=None, workers=8, heap="4g", timeout=800, work=None, extra=(), fp=None):
    """Returns dict(rc, out, distinct, generated, depth, bad=[...])."""
    work = work or tempfile.mkdtemp(dir=os.path.join(VERIF, ".work"))
    meta = tempfile.mkdtemp(dir=work, prefix="tlc")
    cfg = cfg or module + ".cfg"
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", java_classes() + ":" + JARS,
           "-DTLA-Library=" + SPEC, "-Djava.io.tmpdir=" + meta, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", meta,
           "-workers", str(workers), "-deadlock", "-config", os.path.join(SPEC, cfg)] + list(extra) + \
          [os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update({k: str(v) for k, v in (env or {}).items()})
    try:
        p = subprocess.run(cmd, env=e, cwd=meta, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise TlcError("TLC timed out on %s" % module)
    out = p.stdout.decode(errors="replace")
    res = dict(rc=p.returncode, out=out, distinct=0, generated=0, depth=0, bad=[], prints=[], cmd=" ".join(cmd[-6:]))
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    if m:
        res["generated"], res["distinct"] = int(m[-1][0]), int(m[-1][1])
    m = re.findall(r"The depth of the complete state graph search is (\d+)", out)
    if m:
        res["depth"] = int(m[-1])
    for line in out.splitlines():
        if line.startswith('"{'):
            try:
                o = json.loads(json.loads(line))
            except ValueError:
                raise TlcError("unreadable TLC line: " + line[:200])
            (res["bad"] if "bad" in o else res["prints"]).append(o)
    return res


def check_model(module, cfg=None, **kw):
    """Exhaustive model checking of a design model; an error is a machinery error
    (the design itself is broken), never a verdict about the code."""
    r = run(module, cfg, **kw)
    if r["rc"] != 0 or "Model checking completed. No error has been found" not in r["out"]:
        raise TlcError("model %s/%s failed (rc %d):\n%s" % (module, cfg, r["rc"], tail(r["out"])))
    return r


def tail(out, n=60):
    lines = [l for l in out.splitlines() if not l.startswith(("Parsing", "Semantic", "Linting", "Loading"))]
    return "\n".join(lines[-n:])
