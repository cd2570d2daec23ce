"""Check runner: shards, Hypothesis driving, known findings, replay, evidence.

A property module (vf/checks/<id>.py) defines
    TARGETS = [Target(...), ...]
    RULE    = "how cases are made and what makes one non-trivial"
    ASSUMPTIONS = [...]
and optionally prepare() (e.g. compiling C++ drivers), run once per check in the
parent; its return value (a JSON-able dict) reaches every target as env.prep.
"""
import collections
import hashlib
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/veriftools/pyvenv/bin/python"


class Violation(Exception):
    """The property does not hold for this case. `kind` names the way it
    failed; it identifies known findings together with the input."""

    def __init__(self, kind, msg=""):
        Exception.__init__(self, "%s: %s" % (kind, msg))
        self.kind = kind
        self.msg = msg


class Fatal(Violation):
    """A violation that must not be shrunk (hangs)."""


class HarnessError(Exception):
    pass


# quick runs this many times the number a target names
QUICK_SCALE = 2.5


class Target(object):
    """name: unique in the property. strategy: () -> hypothesis strategy of
    JSON-able cases. run(case, env): raises Violation, or returns a dict
    {"nontrivial": bool, "labels": [..], "sample": optional}."""

    def __init__(self, name, strategy, run, quick, thorough=None, corpus=None, sample=None):
        self.name = name
        self.strategy = strategy
        self.run = run
        self.quick = quick
        self.thorough = thorough or quick * 24
        self.corpus = corpus or (lambda: [])
        self.sample = sample


class Env(object):
    """What a target may use: workers, created on first use."""

    def __init__(self, prep, scratch):
        self.prep = prep or {}
        self.scratch = scratch
        self._workers = {}
        self.log = []           # (target name, case) since the workers were started

    def worker(self, kind):
        from . import workers
        if kind not in self._workers:
            self._workers[kind] = workers.make(kind, self)
        return self._workers[kind]

    def fresh(self):
        self.close()

    def close(self):
        for w in self._workers.values():
            w.close()
        self._workers = {}
        self.log = []


def load(prop):
    return importlib.import_module("vf.checks." + prop.lower())


def case_key(target, case):
    return hashlib.sha1((target + json.dumps(case, sort_keys=True)).encode()).hexdigest()[:16]


def run_sequence(targets, env, seq):
    """The violation the last of several cases ends in, after the others have
    run in the same fresh workers, or None."""
    env.fresh()
    for name, case in seq[:-1]:
        try:
            targets[name].run(case, env)
        except Violation:
            pass
    name, case = seq[-1]
    try:
        targets[name].run(case, env)
    except Violation as v:
        return v
    return None


def reproduce(targets, env, seq, seconds=120):
    """A case that fails alone: ([case], violation). One that only fails after
    others in the same process (something is remembered that must not be):
    a short sequence of cases that ends in the failure. None if neither."""
    v = run_sequence(targets, env, seq[-1:])
    if v:
        return seq[-1:], v
    k, found, end = 2, None, time.time() + seconds
    while not found:
        v = run_sequence(targets, env, seq[-k:])
        if v:
            found = (seq[-k:], v)
        elif k >= len(seq):
            return None
        k *= 4
    size = max(1, (len(found[0]) - 1) // 2)
    while time.time() < end:            # drop what is not needed
        short, at = found[0], 0
        while at < len(found[0]) - 1 and time.time() < end:
            cut = found[0][:at] + found[0][min(at + size, len(found[0]) - 1):]
            v = run_sequence(targets, env, cut)
            if v:
                found = (cut, v)
            else:
                at += size
        if size == 1 and len(found[0]) == len(short):
            break
        size = max(1, size // 2)
    return found


# --------------------------------------------------------------------- shards

def shard_main(argv):
    """One shard: runs the listed targets with its share of the cases."""
    spec = json.load(open(argv[0]))
    out_path = argv[1]
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    import hypothesis.internal.conjecture.engine as engine
    engine.MAX_SHRINKING_SECONDS = spec.get("shrink_s", 60)

    mod = load(spec["property"])
    targets = {t.name: t for t in mod.TARGETS}
    env = Env(spec.get("prep"), spec["scratch"])
    result = {"targets": {}, "violation": None, "error": None}
    t_end = spec["deadline"]

    def write():
        tmp = out_path + ".tmp"
        with open(tmp, "w") as f:
            json.dump(result, f)
        os.rename(tmp, out_path)

    class Stop(BaseException):
        pass

    def run_target(t, n, seed):
        stats = {"evaluations": 0, "keys": set(), "labels": collections.Counter(),
                 "samples": [], "truncated": False}
        failing = []
        fatal = []
        first = []              # everything run up to the first failure

        def one(case):
            stats["evaluations"] += 1
            env.log.append((t.name, case))
            try:
                info = t.run(case, env) or {}
            except Violation as v:
                failing.append((len(json.dumps(case)), len(failing), case, v.kind, v.msg))
                if len(failing) == 1:
                    first.extend(env.log)
                if isinstance(v, Fatal):        # already confirmed in a fresh worker
                    fatal.append({"target": t.name, "case": case, "kind": v.kind, "msg": v.msg})
                    raise Stop()
                raise
            if info.get("nontrivial", True):
                stats["keys"].add(case_key(t.name, case))
                if len(stats["samples"]) < 2:
                    stats["samples"].append(info.get("sample", case))
            for lab in info.get("labels", ()):
                stats["labels"][lab] += 1

        try:
            if spec["index"] == 0:
                for case in t.corpus():
                    one(case)
                    stats["labels"]["corpus"] += 1

            if n > 0:
                # Hypothesis begins with the smallest case: once is enough.
                skip = [1 if spec["index"] else 0]

                @hypothesis.seed(seed)
                @settings(max_examples=n + skip[0], deadline=None, database=None,
                          suppress_health_check=list(HealthCheck),
                          report_multiple_bugs=False, print_blob=False,
                          phases=[Phase.generate, Phase.shrink])
                @given(case=t.strategy())
                def prop(case):
                    if skip[0]:
                        skip[0] = 0
                        return
                    # Out of time: stop evaluating (inconclusive for the rest).
                    if not failing and time.time() > t_end:
                        stats["truncated"] = True
                        return
                    one(case)

                prop()
        except Stop:
            pass
        except Violation:
            pass
        except HarnessError:
            raise
        except BaseException as e:          # Flaky and friends, or a harness bug
            if not failing:
                raise
            stats["labels"]["hypothesis:" + type(e).__name__] += 1
        result["targets"][t.name] = {
            "evaluations": stats["evaluations"], "keys": sorted(stats["keys"]),
            "labels": dict(stats["labels"]), "samples": stats["samples"],
            "truncated": stats["truncated"]}
        if fatal:
            result["violation"] = fatal[0]
        elif failing:
            # Hypothesis ends on the minimal case; prefer small, then late.
            failing.sort(key=lambda f: (f[0], -f[1]))
            confirmed, before = None, []
            for _, _, case, kind, msg in failing[:5]:
                v = run_sequence(targets, env, [(t.name, case)])
                if v:
                    confirmed = (case, v.kind, v.msg)
                    break
            if confirmed is None:
                found = reproduce(targets, env, first)
                if found:
                    before = found[0][:-1]
                    confirmed = (found[0][-1][1], found[1].kind, found[1].msg)
            if confirmed is None:
                raise HarnessError("violation of %s/%s did not reproduce in a fresh worker: %s %s %s" % (
                    spec["property"], t.name, failing[0][3], failing[0][4][:2000],
                    json.dumps(failing[0][2])[:2000]))
            result["violation"] = {"target": t.name, "case": confirmed[0],
                                   "kind": confirmed[1], "msg": confirmed[2]}
            if before:
                result["violation"]["before"] = before

    try:
        for i, (name, n) in enumerate(spec["work"]):
            seed = int(hashlib.sha256(("%s/%s/%d/%d" % (
                spec["property"], name, spec["seed"], spec["index"])).encode()).hexdigest()[:12], 16)
            run_target(targets[name], n, seed)
            if result["violation"]:
                break
    except BaseException:
        result["error"] = traceback.format_exc()
    try:
        env.close()
    finally:
        write()
    return 0


# --------------------------------------------------------------------- known findings

def known_findings(prop):
    """Lines `finding: property=<id> replay=<file> kind=<kind> <what fails>`."""
    out = []
    path = os.path.join(VERIF, "known-findings.txt")
    if not os.path.exists(path):
        return out
    for line in open(path):
        line = line.strip()
        if not line.startswith("finding:"):
            continue
        words = line.split(None, 4)
        d = dict(w.split("=", 1) for w in words[1:4])
        if d["property"] == prop:
            out.append((os.path.join(VERIF, d["replay"]), d["kind"], words[4]))
    return out


# --------------------------------------------------------------------- parent

def run_check(prop, tier, seed, only=None, scale=1.0):
    t0 = time.time()
    mod = load(prop)
    scratch = tempfile.mkdtemp(prefix="vf-%s-" % prop)
    os.chmod(scratch, 0o755)
    rc = 3
    try:
        rc = _run_check(mod, prop, tier, seed, scratch, t0, only, scale)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return rc


def _run_check(mod, prop, tier, seed, scratch, t0, only, scale):
    prep = mod.prepare(scratch) if hasattr(mod, "prepare") else {}
    if prep.get("build_error"):
        print("HARNESS-ERROR %s: build failed\n%s" % (prop, prep["build_error"]))
        return 3
    shards = getattr(mod, "SHARDS", 8) if tier == "quick" else 8
    budget = 300 if tier == "quick" else 3 * 3600
    budget = int(os.environ.get("VERIF_BUDGET_S", budget))
    targets = [t for t in mod.TARGETS if not only or t.name in only]

    # Known findings first (cheap, deterministic).
    known_seen = []
    violations = []
    env = Env(prep, scratch)
    byname = {t.name: t for t in mod.TARGETS}
    try:
        for path, kind, what in known_findings(prop):
            rec = json.load(open(path))
            try:
                byname[rec["target"]].run(rec["case"], env)
            except Violation as v:
                if v.kind == kind:
                    print("KNOWN-FINDING: property=%s %s" % (prop, what))
                    known_seen.append(what)
                else:
                    violations.append({"target": rec["target"], "case": rec["case"],
                                       "kind": v.kind, "msg": v.msg})
    finally:
        env.close()

    procs = []
    if not violations:
        for i in range(shards):
            work = []
            for t in targets:
                n = int((t.quick * QUICK_SCALE if tier == "quick" else t.thorough) * scale)
                share = n // shards + (1 if i < n % shards else 0)
                work.append([t.name, share])
            if i % 2:
                work.reverse()
            spec = {"property": prop, "seed": seed, "index": i, "work": work, "prep": prep,
                    "scratch": scratch, "deadline": t0 + budget,
                    "shrink_s": 60 if tier == "quick" else 240}
            sp = os.path.join(scratch, "shard%d.json" % i)
            op = os.path.join(scratch, "shard%d.out" % i)
            json.dump(spec, open(sp, "w"))
            e = dict(os.environ, PYTHONHASHSEED="0", PYTHONPATH=VERIF, PYTHONDONTWRITEBYTECODE="1")
            p = subprocess.Popen([PY, "-W", "ignore", "-m", "vf.shard", sp, op], cwd=VERIF, env=e,
                                 stdin=subprocess.DEVNULL, start_new_session=True)
            procs.append((p, op))
    agg = {"evaluations": 0, "keys": set(), "labels": collections.Counter(), "samples": [],
           "per_target": collections.defaultdict(int), "truncated": False}
    errors = []
    pending = list(procs)
    hard = time.time() + budget + 420
    while pending:
        for item in list(pending):
            p, op = item
            if p.poll() is None:
                continue
            pending.remove(item)
            _kill(p)
            if not os.path.exists(op):
                errors.append("shard ended with %s and wrote no result" % p.returncode)
                continue
            r = json.load(open(op))
            if r["error"]:
                errors.append(r["error"])
            if r["violation"]:
                violations.append(r["violation"])
            for name, s in r["targets"].items():
                agg["evaluations"] += s["evaluations"]
                agg["per_target"][name] += s["evaluations"]
                agg["keys"].update(s["keys"])
                for k, v in s["labels"].items():
                    agg["labels"][name + "/" + k] += v
                agg["truncated"] |= s["truncated"]
                for smp in s["samples"][:1]:
                    if sum(1 for x in agg["samples"] if x["target"] == name) < 2:
                        agg["samples"].append({"target": name, "case": smp})
        if violations and pending:
            for p, op in pending:
                _kill(p)
            pending = []
        if time.time() > hard and pending:
            errors.append("shards still running after the hard limit")
            for p, op in pending:
                _kill(p)
            pending = []
        time.sleep(0.05)

    rc = 0
    if violations:
        violations.sort(key=lambda v: len(json.dumps(v["case"])))
        v = violations[0]
        rdir = os.path.join(VERIF, "replay")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%s-%s.json" % (prop, v["target"], case_key(v["target"], v["case"])))
        json.dump({"property": prop, "target": v["target"], "case": v["case"],
                   "kind": v["kind"], "msg": v["msg"], "before": v.get("before", [])}, open(path, "w"), indent=1)
        print("failing case (target %s): %s" % (v["target"], json.dumps(v["case"])[:3000]))
        print("%s: %s" % (v["kind"], v["msg"][:3000]))
        if v.get("before"):
            print("it only fails after %d other cases have run in the same process (see the replay file)" % len(v["before"]))
        print("replay with: bash %s/run_check.sh %s --replay %s" % (VERIF, prop, path))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        rc = 1
    elif errors:
        for e in errors[:3]:
            print("HARNESS-ERROR %s: %s" % (prop, e))
        rc = 3

    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {
              "evaluations": agg["evaluations"],
              "distinct_nontrivial": len(agg["keys"]),
              "rule": mod.RULE,
              "samples": [_clip(s) for s in agg["samples"][:12]],
              "per_target": dict(agg["per_target"]),
              "labels": dict(sorted(agg["labels"].items())),
              "truncated_by_time": agg["truncated"],
              "known_findings_reproduced": known_seen,
          },
          "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
          "wall_s": round(time.time() - t0, 2),
          "violations": len(violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s seed=%d: %d evaluations, %d distinct non-trivial, %.1fs -> %s" % (
        prop, tier, seed, agg["evaluations"], len(agg["keys"]), time.time() - t0,
        {0: "held", 1: "VIOLATED", 3: "ERROR"}[rc]))
    return rc


def _clip(s, n=2500):
    txt = json.dumps(s)
    return s if len(txt) <= n else {"target": s.get("target"), "case_json_prefix": txt[:n]}


def _kill(p):
    try:
        os.killpg(p.pid, 9)
    except OSError:
        pass
    try:
        p.wait(10)
    except Exception:
        pass


def replay(prop, path):
    mod = load(prop)
    scratch = tempfile.mkdtemp(prefix="vf-%s-" % prop)
    os.chmod(scratch, 0o755)
    try:
        prep = mod.prepare(scratch) if hasattr(mod, "prepare") else {}
        rec = json.load(open(path))
        targets = {t.name: t for t in mod.TARGETS}
        t = targets[rec["target"]]
        env = Env(prep, scratch)
        for name, case in rec.get("before", []):
            try:
                targets[name].run(case, env)
            except Violation:
                pass
        try:
            info = t.run(rec["case"], env)
            print("held: %s" % json.dumps(info)[:2000])
            return 0
        except Violation as v:
            print("%s: %s" % (v.kind, v.msg))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        finally:
            env.close()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main(argv):
    prop = argv[0].upper()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only, scale = None, 1.0
    i = 1
    while i < len(argv):
        if argv[i] == "--tier":
            tier = argv[i + 1]; i += 2
        elif argv[i] == "--seed":
            seed = int(argv[i + 1]); i += 2
        elif argv[i] == "--only":
            only = argv[i + 1].split(","); i += 2
        elif argv[i] == "--scale":
            scale = float(argv[i + 1]); i += 2
        elif argv[i] == "--replay":
            return replay(prop, argv[i + 1])
        else:
            raise SystemExit("unknown argument " + argv[i])
    try:
        return run_check(prop, tier, seed, only, scale)
    except Exception:
        traceback.print_exc()
        print("HARNESS-ERROR %s" % prop)
        return 3
