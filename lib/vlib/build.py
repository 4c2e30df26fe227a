"""Build a private copy of /repo's current working tree.

The tree is copied (tracked and untracked, not ignored, files) to a scratch
folder under /verif/.work; the native extensions are built there with the
repository's own setup.py.  Built extensions are cached by the hash of every
file that can influence them, so an unchanged native part costs nothing and a
changed one is always rebuilt.
"""
import hashlib, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
CACHE = os.path.join(VERIF, ".cache")
WORK = os.path.join(VERIF, ".work")
NATIVE = (".pyx", ".pxd", ".c", ".cpp", ".h", ".hpp")


class BuildError(Exception):
    pass


def source_files():
    try:
        out = subprocess.run(["git", "-c", "safe.directory=*", "-C", REPO, "ls-files", "-co",
                              "--exclude-standard", "-z"], check=True, stdout=subprocess.PIPE,
                             stderr=subprocess.DEVNULL).stdout
        files = [f for f in out.decode().split("\0") if f]
    except (OSError, subprocess.CalledProcessError):
        files = []
        for root, dirs, names in os.walk(REPO):
            dirs[:] = [d for d in dirs if d not in (".git", "build", "__pycache__")]
            files += [os.path.relpath(os.path.join(root, n), REPO) for n in names
                      if not n.endswith((".so", ".pyc"))]
    keep = []
    for f in files:
        p = os.path.join(REPO, f)
        if not os.path.isfile(p):
            continue  # deleted in the working tree
        if f.startswith("rankeval/") or "/" not in f:
            if f.startswith("rankeval/test/data"):
                continue
            keep.append(f)
    return sorted(set(keep))


def make_tree(dest):
    """Copy the working tree to dest and put built extensions in place."""
    files = source_files()
    if not any(f == "setup.py" for f in files):
        raise BuildError("no setup.py in " + REPO)
    h = hashlib.sha256()
    for f in files:
        src, dst = os.path.join(REPO, f), os.path.join(dest, f)
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        shutil.copy2(src, dst)
        if f.endswith(NATIVE) or f in ("setup.py", "setup.cfg", "pyproject.toml"):
            with open(src, "rb") as fh:
                data = fh.read()
            h.update(f.encode() + b"\0" + str(len(data)).encode() + b"\0" + data)
    key = h.hexdigest()[:32]
    store = os.path.join(CACHE, "native", key)
    if not os.path.exists(os.path.join(store, "DONE")):
        _build(dest, store)
    for root, _, names in os.walk(store):
        for n in names:
            if n.endswith(".so"):
                rel = os.path.relpath(os.path.join(root, n), store)
                shutil.copy2(os.path.join(root, n), os.path.join(dest, rel))
    return key


def _build(tree, store):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", HOME=os.environ.get("HOME", "/root"))
    p = subprocess.run([PY, "setup.py", "-q", "build_ext", "--inplace", "-j", "4"], cwd=tree, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
    if p.returncode != 0:
        raise BuildError("build failed:\n" + p.stdout.decode(errors="replace")[-3000:])
    os.makedirs(os.path.dirname(store), exist_ok=True)
    tmp = tempfile.mkdtemp(dir=os.path.dirname(store))
    n = 0
    for root, _, names in os.walk(os.path.join(tree, "rankeval")):
        for name in names:
            if name.endswith(".so"):
                rel = os.path.relpath(os.path.join(root, name), tree)
                os.makedirs(os.path.dirname(os.path.join(tmp, rel)), exist_ok=True)
                shutil.copy2(os.path.join(root, name), os.path.join(tmp, rel))
                n += 1
    if n == 0:
        raise BuildError("the build produced no extension module")
    open(os.path.join(tmp, "DONE"), "w").close()
    try:
        os.rename(tmp, store)
    except OSError:            # another check built the same sources meanwhile
        shutil.rmtree(tmp, ignore_errors=True)
    # bound the cache
    base = os.path.dirname(store)
    old = sorted((os.path.getmtime(os.path.join(base, d)), d) for d in os.listdir(base))
    for _, d in old[:-12]:
        shutil.rmtree(os.path.join(base, d), ignore_errors=True)
