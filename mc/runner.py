"""Explorer driver: shards the exhaustive enumeration of a check over worker processes,
merges what they covered, writes evidence and replay files.

Every worker runs with a fixed, different PYTHONHASHSEED, so that set iteration order - the one
source of nondeterminism inside the library - is owned by the explorer and varied on purpose; a
replay file records the seed it needs."""
import argparse
import collections
import gc
import hashlib
import importlib
import itertools
import json
import os
import resource
import signal
import subprocess
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = 8
CASE_SECONDS, CASE_WALL_SECONDS = 100, 400  # of processor time, so that a busy machine does not matter; of waiting
BUDGET = {"quick": 600, "thorough": 6 * 3600}


class Coverage:
    def __init__(self):
        self.cases = 0
        self.transitions = 0
        self.traces = 0
        self.state_keys = set()
        self.outcomes = collections.Counter()
        self.extra = collections.Counter()

    def state(self, obj):
        """Record a state reached (hashed canonical form)."""
        if not isinstance(obj, bytes):
            obj = json.dumps(obj, sort_keys=True, default=str).encode()
        self.state_keys.add(int.from_bytes(hashlib.blake2b(obj, digest_size=8).digest(), "big"))

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, label):
        self.outcomes[str(label)] += 1

    def count(self, label, n=1):
        self.extra[str(label)] += n


def load_check(pid):
    return importlib.import_module("mc.checks." + pid.lower())


def guarded(mod, case, cov):
    """Run one case; returns None or a message."""
    from mc.lib import Violation, CaseTimeout

    def on_alarm(*_):
        raise CaseTimeout()

    signal.signal(signal.SIGALRM, on_alarm)
    signal.signal(signal.SIGPROF, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_WALL_SECONDS)
    signal.setitimer(signal.ITIMER_PROF, CASE_SECONDS)
    try:
        mod.check(case, cov)
    except Violation as e:
        return str(e)
    except CaseTimeout:
        return "the code under test did not finish within %d s of processor time" % CASE_SECONDS
    except MemoryError:
        return "the code under test ran out of memory"
    except Exception as e:  # no operation of any case may raise, nor return what cannot be read
        tb = traceback.extract_tb(e.__traceback__)
        return "unexpected %s: %s at %s" % (
            type(e).__name__, e, ["%s:%s" % (os.path.basename(f.filename), f.name) for f in tb[-3:]])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.setitimer(signal.ITIMER_PROF, 0)
    return None


def worker(args):
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    mod = load_check(args.id)
    cov = Coverage()
    violations, samples = [], []
    slowest = [0, ""]
    deadline = time.time() + BUDGET[args.tier] * 0.9
    capped = None
    sys.stdout = open(os.devnull, "w")
    for index, case in enumerate(mod.cases(args.tier)):
        if index % args.of != args.worker:
            continue
        if time.time() > deadline:
            capped = index
            break
        cov.cases += 1
        if len(samples) < 2 and cov.cases % 97 == 3:
            samples.append(case)
        elif not samples:
            samples.append(case)
        began = time.process_time()
        msg = guarded(mod, case, cov)
        slowest = max(slowest, [round(time.process_time() - began, 2), json.dumps(case)[:120]])
        if msg is not None:
            violations.append({"index": index, "message": msg, "case": case})
            if len(violations) >= 3 or time.process_time() - began > CASE_SECONDS / 2:
                break
    with open(args.out, "w") as f:
        json.dump({
            "cases": cov.cases, "transitions": cov.transitions, "traces": cov.traces,
            "states": sorted(cov.state_keys), "outcomes": cov.outcomes, "extra": cov.extra,
            "violations": violations, "samples": samples[-2:], "capped": capped, "slowest": slowest,
        }, f)


def known_findings():
    """Open findings: lines 'finding: property=<id> case=<digest> <what fails>'."""
    found = {}
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("finding:"):
                parts = line.split(None, 3)
                found[(parts[1].split("=")[1], parts[2].split("=")[1])] = parts[3].strip()
    return found


def digest(case):
    return hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


def trim(obj, limit=2500):
    s = json.dumps(obj)
    return obj if len(s) <= limit else s[:limit] + "..."


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--worker", type=int)
    ap.add_argument("--of", type=int, default=WORKERS)
    ap.add_argument("--out")
    ap.add_argument("--replay")
    args = ap.parse_args(argv)
    if args.tier not in BUDGET:
        args.tier = "quick"
    if args.worker is not None:
        return worker(args)
    if args.replay:
        return replay(args)
    pid = args.id
    start = time.time()
    tmp = tempfile.mkdtemp(prefix="mc-%s-" % pid)
    procs = []
    try:
        for k in range(WORKERS):
            env = dict(os.environ, PYTHONHASHSEED=str(k), PYTHONDONTWRITEBYTECODE="1",
                       PYTHONPYCACHEPREFIX=os.path.join(tmp, "nopyc"))
            err = open(os.path.join(tmp, "err%d" % k), "w")
            procs.append(subprocess.Popen(
                [sys.executable, "-B", os.path.join(ROOT, "check.py"), pid, "--tier", args.tier,
                 "--worker", str(k), "--of", str(WORKERS), "--out", os.path.join(tmp, "o%d" % k)],
                cwd=ROOT, env=env, stdout=subprocess.DEVNULL, stderr=err))
        for p in procs:
            p.wait()
        parts, broken = [], []
        for k, p in enumerate(procs):
            out = os.path.join(tmp, "o%d" % k)
            if p.returncode != 0 or not os.path.exists(out):
                broken.append("worker %d exit %s: %s" % (
                    k, p.returncode, open(os.path.join(tmp, "err%d" % k)).read()[-1500:]))
            else:
                parts.append(json.load(open(out)))
    finally:
        for p in procs:
            if p.poll() is None:
                p.kill()
        for name in os.listdir(tmp):
            try:
                os.unlink(os.path.join(tmp, name))
            except OSError:
                pass
        try:
            os.rmdir(tmp)
        except OSError:
            pass
    mod = load_check(pid)
    states = set(itertools.chain.from_iterable(p["states"] for p in parts))
    outcomes, extra = collections.Counter(), collections.Counter()
    for p in parts:
        outcomes.update(p["outcomes"])
        extra.update(p["extra"])
    violations = []
    for k, p in enumerate(parts):
        for v in p["violations"]:
            violations.append((v["index"], k, v))
    violations.sort(key=lambda v: (v[0], v[1]))
    known = known_findings()
    fresh, old = [], []
    for v in violations:
        (old if (pid, digest(v[2]["case"])) in known else fresh).append(v)
    for v in old:
        print("KNOWN-FINDING: property=%s %s" % (pid, known[(pid, digest(v[2]["case"]))]))
    capped = [p["capped"] for p in parts if p["capped"] is not None]
    coverage = {
        "states": len(states),
        "transitions": sum(p["transitions"] for p in parts),
        "traces_validated_against_impl": sum(p["traces"] for p in parts),
        "samples": [trim(s) for p in parts[:3] for s in p["samples"][:1]],
        "evaluations": sum(p["cases"] for p in parts),
        "rule": mod.RULE,
        "exhaustive": not capped and not broken and not violations,
        "bounds": mod.bounds(args.tier) if hasattr(mod, "bounds") else mod.RULE,
        "outcomes": dict(outcomes.most_common(25)),
        "counts": dict(extra),
        "slowest_case": max([p["slowest"] for p in parts], default=None),
    }
    if capped:
        coverage["capped_at_case"] = min(capped)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    evidence = {
        "property": pid, "tier": args.tier, "seed": int(os.environ.get("VERIF_SEED") or 0),
        "level": "model_checking", "coverage": coverage,
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - start, 2), "violations": len(fresh),
    }
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    print("%s %s: cases=%d states=%d transitions=%d traces=%d wall=%.1fs%s" % (
        pid, args.tier, coverage["evaluations"], coverage["states"], coverage["transitions"],
        coverage["traces_validated_against_impl"], evidence["wall_s"], " CAPPED" if capped else ""))
    print("outcomes: %s" % json.dumps(coverage["outcomes"])[:1500])
    if fresh:
        _, k, v = fresh[0]
        os.makedirs(os.path.join(ROOT, "out"), exist_ok=True)
        path = os.path.join(ROOT, "out", "replay-%s.json" % pid)
        with open(path, "w") as f:
            json.dump({"property": pid, "hashseed": k, "message": v["message"], "case": v["case"]},
                      f, indent=1)
        print("  %s" % v["message"][:3000])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if broken:
        print("ERROR " + "\n".join(broken))
        return 2
    return 0


def replay(args):
    data = json.load(open(args.replay))
    seed = str(data["hashseed"])
    if os.environ.get("PYTHONHASHSEED") != seed:
        env = dict(os.environ, PYTHONHASHSEED=seed)
        return subprocess.call([sys.executable, "-B", os.path.join(ROOT, "check.py"), args.id,
                                "--replay", args.replay], env=env)
    mod = load_check(args.id)
    out = sys.stdout
    sys.stdout = open(os.devnull, "w")
    msg = guarded(mod, data["case"], Coverage())
    sys.stdout = out
    print(json.dumps(data["case"], indent=1)[:6000])
    if msg is None:
        print("replay: the property holds on this case")
        return 0
    print("replay: " + msg)
    print("VIOLATION property=%s replay=%s" % (args.id, args.replay))
    return 1
