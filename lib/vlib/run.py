"""Orchestrates one check: build, generate cases with TLC, observe the real
code, judge the observations with TLC, model check the design, write evidence."""
import hashlib, json, os, shutil, signal, subprocess, sys, tempfile, threading, time, traceback
from . import build, tlc
from .build import VERIF, WORK, PY
from .props import PROPS

OUT = os.path.join(VERIF, "out")
EVID = os.path.join(VERIF, "evidence")


def known_findings(prop):
    """keys listed as 'finding: property=<id> key=<key> <what>'"""
    res = {}
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("finding: "):
                f = line[len("finding: "):].strip().split(" ", 2)
                if f[0] == "property=" + prop and f[1].startswith("key="):
                    res[f[1][4:]] = f[2] if len(f) > 2 else ""
    return res


class Check(object):
    def __init__(self, prop):
        self.id, self.p = prop, PROPS[prop]
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.states = self.transitions = 0
        self.models, self.errors = [], []
        self.violations = []       # (clauses, record)
        self.samples = []

    # -- steps -----------------------------------------------------------
    def model(self, m):
        module, cfg = m
        r = tlc.check_model(module, cfg, env=dict(TIER=self.tier, SEED=self.seed), work=self.work,
                            workers=2 if self.tier == "quick" else 6, timeout=3000)
        self.models.append(dict(module=module, cfg=cfg, states=r["distinct"], transitions=r["generated"], depth=r["depth"]))

    def models_thread(self):
        try:
            for m in self.p.get("mc", []) + (self.p.get("mc_thorough", []) if self.tier == "thorough" else []):
                self.model(m)
        except Exception as e:
            self.errors.append(e)

    def generate(self):
        files = []
        for k, (module, cfg) in enumerate(self.p.get("gen", [])):
            out = os.path.join(self.work, "cases%d.ndjson" % k)
            r = tlc.run(module, cfg, env=dict(TIER=self.tier, SEED=self.seed, OUT=out), work=self.work)
            if r["rc"] != 0 or not os.path.exists(out):
                raise tlc.TlcError("generator %s failed:\n%s" % (module, tlc.tail(r["out"])))
            files.append(out)
        return files

    def drive(self, cases):
        """Run the driver; a death of the process is itself an observation."""
        obs, mark = os.path.join(self.work, "obs.ndjson"), os.path.join(self.work, "mark")
        open(obs, "w").close()
        runs = self.p.get("runs", [{}])
        for k, spec in enumerate(runs):
            scratch = os.path.join(self.work, "scratch%d" % k)
            os.makedirs(scratch)
            env = dict(os.environ, PYTHONPATH=self.tree + ":" + os.path.join(VERIF, "lib"), MPLBACKEND="Agg",
                       PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="4", OPENBLAS_NUM_THREADS="2", PYTHONHASHSEED="0",
                       MPLCONFIGDIR=scratch)
            env.setdefault("HOME", "/root")
            env.update(spec.get("env", {}))
            cmd = [PY, "-W", "ignore", "-m", "vlib.child", "--prop", self.id, "--driver", self.p["driver"], "--out", obs,
                   "--mark", mark, "--scratch", scratch, "--tier", self.tier, "--seed", str(self.seed),
                   "--cases", ",".join(cases), "--args", spec.get("args", "")]
            limit = self.p.get("driver_timeout", 300 if self.tier == "quick" else 2400)
            log = open(os.path.join(self.work, "driver%d.log" % k), "w+")
            try:
                rc = subprocess.run(cmd, env=env, cwd=scratch, stdout=log, stderr=subprocess.STDOUT,
                                    timeout=limit).returncode
            except subprocess.TimeoutExpired:
                rc = "timeout"
            log.seek(0)
            text = log.read()
            if rc == 0:
                continue
            what = open(mark).read() if os.path.exists(mark) else ""
            if rc == 17:
                self.violations.append((["the library cannot be imported"], dict(log=text[-3000:])))
            elif rc in (18, 19):
                self.violations.append((["an exception where an answer is due" if rc == 18 else "an answer that has not the documented form"],
                                        dict(executing=what, log=text[-3000:])))
            elif rc == "timeout":
                self.violations.append((["no answer within %d s" % limit], dict(executing=what)))
            elif rc < 0 and rc not in (-signal.SIGKILL, -signal.SIGTERM):
                self.violations.append((["the process died with signal %d" % -rc], dict(executing=what, log=text[-2000:])))
            else:
                raise RuntimeError("driver failed (rc %s):\n%s" % (rc, text[-4000:]))
        # a dying process may leave half a line
        data = open(obs).read()
        if data and not data.endswith("\n"):
            data = data[:data.rfind("\n") + 1]
            open(obs, "w").write(data)
        return obs

    def judge(self, obs):
        recs = [l for l in open(obs) if l.strip()]
        self.n_obs = len(recs)
        if not recs:
            if self.violations:
                return
            raise RuntimeError("the driver observed nothing")
        keys = set()
        for l in recs:
            keys.add(hashlib.sha256(l.encode()).digest()[:8])
        self.distinct = len(keys)
        for k in (0, len(recs) // 2, len(recs) - 1):
            self.samples.append(recs[k].strip()[:600])
        module = self.p["judge"]
        r = tlc.run(module, self.p.get("judge_cfg"), env=dict(OBS=obs, TIER=self.tier, SEED=self.seed), work=self.work,
                    timeout=840 if self.tier == "quick" else 6000,
                    heap="6g" if self.tier == "quick" else "12g")
        broke = r["rc"] != 0 or "Model checking completed. No error has been found" not in r["out"]
        if broke and r["bad"]:
            # an observation outside anything the specification expects stopped
            # TLC; what it rejected before that counts
            print("judging stopped early: %s" % tlc.tail(r["out"])[:300].replace("\n", " "))
        elif broke and "Attempted to" in r["out"] and "OutOfMemory" not in r["out"]:
            self.violations.append((["an observation that is nothing the specification can evaluate"], dict(log=tlc.tail(r["out"])[-3000:])))
        elif broke:
            raise tlc.TlcError("judging %s failed (rc %d):\n%s" % (module, r["rc"], tlc.tail(r["out"])))
        self.judged = dict(module=module, states=r["distinct"], transitions=r["generated"])
        if self.p.get("chain"):
            if not r["bad"] and not broke:
                want = sum(len(json.loads(l)["ev"]) + 1 for l in recs)
                if r["distinct"] != want:
                    raise tlc.TlcError("%s judged %d states, expected %d" % (module, r["distinct"], want))
        for b in sorted(r["bad"], key=lambda o: o["line"]):
            rec = json.loads(recs[b["line"] - 1])
            rec["_at"] = b.get("at")
            self.violations.append((sorted(b["bad"]), rec))

    # -- all ---------------------------------------------------------------
    def run(self):
        os.makedirs(WORK, exist_ok=True)
        os.makedirs(OUT, exist_ok=True)
        os.makedirs(EVID, exist_ok=True)
        self.work = tempfile.mkdtemp(dir=WORK, prefix=self.id + "-")
        os.chmod(self.work, 0o755)
        self.tree = os.path.join(self.work, "tree")
        try:
            tlc.java_classes()
            th = threading.Thread(target=self.models_thread)
            th.start()
            try:
                cases = self.generate()
                build.make_tree(self.tree)
                obs = self.drive(cases)
                self.judge(obs)
            finally:
                th.join()
            if self.errors:
                raise self.errors[0]
            return self.report()
        finally:
            if not os.environ.get("VERIF_KEEP"):
                shutil.rmtree(self.work, ignore_errors=True)

    def report(self):
        known = known_findings(self.id)
        new, seen = [], {}
        for clauses, rec in self.violations:
            key = rec.get("key")
            if key and key in known:
                seen[key] = known[key]
            else:
                new.append((clauses, rec))
        for key, what in sorted(seen.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.id, what or key))
        states = sum(m["states"] for m in self.models)
        trans = sum(m["transitions"] for m in self.models)
        n = getattr(self, "n_obs", 0)
        j = getattr(self, "judged", dict(states=0, transitions=0, module=None))
        cov = dict(states=states + j["states"], transitions=trans + j["transitions"],
                   traces_validated_against_impl=n, samples=self.samples or ["none"],
                   evaluations=n, distinct_nontrivial=getattr(self, "distinct", 0),
                   rule=self.p["rule"] + "  An observation counts once however often it recurs.",
                   design_models=self.models, judged_by=j)
        ev = dict(property=self.id, tier=self.tier, seed=self.seed, level=self.p["level"], coverage=cov,
                  assumptions=self.p.get("assumptions", []), wall_s=round(time.time() - self.t0, 2), violations=len(new))
        with open(os.path.join(EVID, self.id + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if not new:
            print("%s: held on %d observations (%d distinct), %d model states, %.1f s" %
                  (self.id, n, cov["distinct_nontrivial"], states, time.time() - self.t0))
            return 0
        path = os.path.join(OUT, "%s-%s.json" % (self.id, hashlib.sha256(json.dumps(new[0], sort_keys=True, default=str)
                                                                          .encode()).hexdigest()[:12]))
        with open(path, "w") as f:
            json.dump([dict(clauses=c, observation=r) for c, r in new[:20]], f, indent=1)
        for c, r in new[:5]:
            print("  broken: %s" % "; ".join(c))
            print("    %s" % json.dumps(r)[:500])
        print("%d observations break the property" % len(new))
        print("VIOLATION property=%s replay=%s" % (self.id, path))
        return 1


def main(argv):
    try:
        return Check(argv[1]).run()
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv))
