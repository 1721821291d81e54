"""Runs one check module: generated cases against the code under test, on all
cores, from a fixed seed; shrinks the first failure into a replay file; writes
the evidence file.

A check module defines
  PROPERTY, RULE (what counts as a non-trivial case), LEVEL_NOTE
  gen(g, tier)         -> a case (plain JSON), drawn through model.G
  run(case, ev)        -> raises boot.Violation, or boot.Skip; ev collects what was covered
  QUICK, THOROUGH      cases per shard
  CORPUS               optional list of fixed cases run first
  ASSUMPTIONS          optional list of texts
  setup() / teardown() optional, once per process
"""
import argparse
import contextlib
import hashlib
import importlib
import json
import os
import signal
import subprocess
import sys
import tempfile
import time
import traceback

import boot

SHARDS = 8
CASE_CPU = 20  # seconds of CPU after which a case counts as not finishing
WALL = {"quick": 240, "thorough": 5400}  # no new case starts after this
SHRINK = float(os.environ.get("VERIF_SHRINK", "40"))  # seconds spent on making a failure small


class Stop(BaseException):
    pass


class Hang(boot.Violation):
    pass


class Sink:
    def write(self, x):
        return len(x)

    def flush(self):
        pass

    def isatty(self):
        return False


class Ev:
    """what was covered"""

    def __init__(self):
        self.n = 0
        self.skipped = 0
        self.labels = {}
        self.keys = set()
        self.samples = []
        self.case = None

    def label(self, name, k=1):
        self.labels[name] = self.labels.get(name, 0) + k

    def nontrivial(self, key=None):
        """the current case is non-trivial by the stated rule; key: what makes it distinct"""
        h = hashlib.blake2b(json.dumps(self.case if key is None else key, sort_keys=True, default=str).encode("utf8", "surrogatepass"), digest_size=8).hexdigest()
        if h not in self.keys:
            self.keys.add(h)
            if len(self.samples) < 3:
                self.samples.append(self.case)
            elif len(self.keys) % 97 == 0:
                self.samples[len(self.keys) // 97 % 3] = self.case


def in_repo(tb):
    """the deepest frames of this traceback are in the code under test"""
    root = os.path.realpath(boot.REPO) + os.sep
    return any(os.path.realpath(f.filename).startswith(root) for f in traceback.extract_tb(tb))


def _alarm(sig, frm):
    raise Hang("did not finish within %d s of CPU time" % CASE_CPU)


def run_case(mod, case, ev):
    """None, or the text of the violation"""
    ev.case = case
    ev.n += 1
    old = signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU)
    try:
        with contextlib.redirect_stdout(Sink()), contextlib.redirect_stderr(Sink()):
            mod.run(case, ev)
        return None
    except boot.Skip:
        ev.skipped += 1
        return None
    except boot.Violation as e:
        return str(e) or "violated"
    except Exception as e:
        if in_repo(e.__traceback__):
            where = [f for f in traceback.extract_tb(e.__traceback__) if os.path.realpath(f.filename).startswith(os.path.realpath(boot.REPO) + os.sep)][-1]
            return "the code under test raised %s: %s (%s, line %s)" % (type(e).__name__, str(e)[:300], os.path.relpath(where.filename, os.path.realpath(boot.REPO)), where.lineno)
        if isinstance(e, (OSError, MemoryError)):
            raise
        # the observation itself broke: what the code returned is not of the documented shape
        return "unexpected result: " + traceback.format_exc()[-1500:]
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)


def size(case):
    return len(json.dumps(case, default=str))


def shard(mod, tier, seed, i, out):
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings
    import model
    ev = Ev()
    t0 = time.monotonic()
    res = {"error": None, "fail": None}
    best = {}

    if hasattr(mod, "setup"):
        mod.setup()

    def one(case):
        msg = run_case(mod, case, ev)
        if msg is None:
            return
        if "t" not in best:
            best["t"] = time.monotonic()
        if "case" not in best or size(case) < size(best["case"]):
            best["case"], best["msg"] = case, msg
        if time.monotonic() - best["t"] > SHRINK:
            raise Stop()
        raise boot.Violation(msg)

    try:
        corpus = list(getattr(mod, "CORPUS", []))
        for k, case in enumerate(corpus):
            if k % SHARDS == i:
                msg = run_case(mod, case, ev)
                if msg is not None:
                    best["case"], best["msg"] = case, msg
                    break
        if "case" not in best:
            n = int((mod.QUICK if tier == "quick" else mod.THOROUGH) * float(os.environ.get("VERIF_SCALE", "1")))
            chunk = 2500
            k = 0
            while n > 0 and "case" not in best and time.monotonic() - t0 < WALL[tier]:
                @hypothesis.seed(seed * 1000003 + i * 101 + k * 7927)
                @settings(max_examples=min(n, chunk), database=None, deadline=None, suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink], report_multiple_bugs=False, print_blob=False)
                @hypothesis.given(model.cases(lambda g: mod.gen(g, tier)))
                def search(case):
                    if "t" not in best and time.monotonic() - t0 > WALL[tier]:
                        return
                    one(case)
                try:
                    with contextlib.redirect_stdout(Sink()):
                        search()
                except (boot.Violation, Stop):
                    pass
                except Exception:
                    if "case" not in best:
                        raise
                n -= chunk
                k += 1
        if "case" in best:
            res["fail"] = [best["case"], best["msg"]]
    except BaseException:
        res["error"] = traceback.format_exc()
    finally:
        if hasattr(mod, "teardown"):
            mod.teardown()
    res.update(n=ev.n, skipped=ev.skipped, labels=ev.labels, keys=sorted(ev.keys), samples=ev.samples, wall=time.monotonic() - t0)
    with open(out, "w") as fp:
        json.dump(res, fp, default=str)


def findings(pid):
    """[(path, what)] of the recorded findings of a property"""
    out = []
    p = os.path.join(boot.VERIF, "known_findings.txt")
    if os.path.isfile(p):
        for line in open(p):
            if line.startswith("finding: property=%s " % pid):
                _, _, rest = line.strip().split(" ", 2)
                case, what = rest.split(" ", 1)
                out.append((os.path.join(boot.VERIF, case.split("=", 1)[1]), what))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("check")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--shard", type=int)
    ap.add_argument("--out")
    ap.add_argument("--seed", type=int)
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1") or "1")
    name = a.check.lower()
    sys.path.insert(0, os.path.join(boot.VERIF, "checks"))
    mod = importlib.import_module(name)
    pid = mod.PROPERTY

    if a.shard is not None:
        return shard(mod, a.tier, seed, a.shard, a.out)

    if a.replay:
        rep = json.load(open(a.replay))
        if hasattr(mod, "setup"):
            mod.setup()
        try:
            msg = run_case(mod, rep["case"] if isinstance(rep, dict) and "case" in rep else rep, Ev())
        finally:
            if hasattr(mod, "teardown"):
                mod.teardown()
        if msg is None:
            print("property=%s holds on %s" % (pid, a.replay))
            return 0
        print(msg)
        print("VIOLATION property=%s replay=%s" % (pid, a.replay))
        return 1

    t0 = time.monotonic()
    tmp = tempfile.mkdtemp(prefix="verif_%s_" % name)
    try:
        known = []
        if hasattr(mod, "setup"):
            mod.setup()
        try:
            for path, what in findings(pid):
                if run_case(mod, json.load(open(path))["case"], Ev()) is not None:
                    known.append(what)
                    print("KNOWN-FINDING: property=%s %s" % (pid, what))
        finally:
            if hasattr(mod, "teardown"):
                mod.teardown()
        procs = []
        env = dict(os.environ, PYTHONHASHSEED="0", TMPDIR=tmp)
        for i in range(SHARDS):
            out = os.path.join(tmp, "shard%d.json" % i)
            procs.append((out, subprocess.Popen([sys.executable, os.path.join(boot.VERIF, "lib", "main.py"), name, "--tier", a.tier, "--seed", str(seed), "--shard", str(i), "--out", out], env=env, cwd=boot.VERIF, stderr=subprocess.PIPE)))
        res, errors = [], []
        for out, p in procs:
            err = p.communicate()[1].decode("utf8", "replace")
            if os.path.isfile(out):
                r = json.load(open(out))
                res.append(r)
                if r["error"]:
                    errors.append(r["error"])
            else:
                errors.append("shard ended with %s: %s" % (p.returncode, err[-3000:]))
    finally:
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)
    fails = [r["fail"] for r in res if r["fail"]]
    fails.sort(key=lambda f: size(f[0]))
    labels, keys, samples = {}, set(), []
    for r in res:
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
        keys |= set(r["keys"])
        samples += r["samples"][:2]
    samples.sort(key=size)
    wall = time.monotonic() - t0
    ev = {
        "property": pid, "tier": a.tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(r["n"] for r in res), "distinct_nontrivial": len(keys), "rule": mod.RULE,
            "samples": samples[:: max(1, len(samples) // 5)][:5],
            "skipped": sum(r["skipped"] for r in res), "labels": dict(sorted(labels.items())),
            "shards": SHARDS, "corpus_cases": len(getattr(mod, "CORPUS", [])), "known_findings_replayed": len(findings(pid)),
        },
        "wall_s": round(wall, 2), "violations": len(fails),
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
    }
    if not a.no_evidence:
        os.makedirs(os.path.join(boot.VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(boot.VERIF, "evidence", "%s.json" % pid), "w") as fp:
            json.dump(ev, fp, indent=1, default=str)
    if fails:
        case, msg = fails[0]
        d = os.path.join(boot.VERIF, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        h = hashlib.sha1(json.dumps(case, sort_keys=True, default=str).encode()).hexdigest()[:12]
        path = os.path.join(d, "%s-%s.json" % (pid, h))
        with open(path, "w") as fp:
            json.dump({"property": pid, "message": msg, "case": case}, fp, indent=1, default=str)
        for c, m in fails[:3]:
            print(m[:1500])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errors:
        print("\n".join(e[-3000:] for e in errors[:2]))
        print("the check itself failed (%d of %d shards)" % (len(errors), SHARDS))
        return 2
    print("property=%s held: %d cases, %d distinct non-trivial, %.1f s" % (pid, ev["coverage"]["evaluations"], len(keys), wall))
    return 0
