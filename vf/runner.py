"""Runs the sub-checks of one property and writes its evidence."""
import argparse
import contextlib
import ctypes
import hashlib
import importlib
import io
import json
import os
import pickle
import resource
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

from . import boot

boot.install()

import numpy as np  # noqa: E402
import hypothesis  # noqa: E402
from hypothesis import HealthCheck, Phase, settings  # noqa: E402
import hypothesis.internal.conjecture.engine as _engine  # noqa: E402

from .core import Hang, Reject, Track, Violation, cpu_limit  # noqa: E402

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
OUT = os.environ.get("VF_OUT", os.path.join(ROOT, "out"))
EVIDENCE = os.path.join(OUT, "evidence") if "VF_OUT" in os.environ else os.path.join(ROOT, "evidence")
_engine.MAX_SHRINKING_SECONDS = 25

WORKERS = 8


def load_copt():
    """imports copt from /repo's working tree, and from nowhere else"""
    sys.path.insert(0, REPO)
    warnings.simplefilter("ignore")
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            import copt
            import copt.datasets, copt.tv_prox, copt.utils, copt.penalty  # noqa
            import copt.constraint, copt.loss, copt.splitting  # noqa
            import copt.randomized, copt.frank_wolfe, copt.proximal_gradient  # noqa
    except Exception:
        return traceback.format_exc()
    where = os.path.realpath(copt.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        print("ERROR: copt imported from %s, not from %s" % (where, REPO))
        sys.exit(2)
    return None


def dumps(case):
    return json.dumps(case, sort_keys=True, default=_default)


def _default(o):
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, np.ndarray):
        return o.tolist()
    raise TypeError(repr(o))


def through_copt(tb):
    """does the traceback pass through the code under test?"""
    root = os.path.realpath(REPO) + os.sep
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(root):
            return True
        tb = tb.tb_next
    return False


def run_case(sub, case):
    """returns a Track; raises Violation, Hang, Reject, or a harness error"""
    t = Track()
    np.random.seed(12345)
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"), \
                cpu_limit(sub.cpu_limit):
            warnings.simplefilter("ignore")
            sub.check(case, t)
    except (Violation, Reject):
        raise
    except Exception as e:
        if through_copt(e.__traceback__):
            frames = traceback.extract_tb(e.__traceback__)
            last = [f for f in frames if f.filename.startswith(REPO)][-1]
            raise Violation("raised %s: %s (%s:%s)" % (
                type(e).__name__, e, os.path.relpath(last.filename, REPO),
                last.name)) from e
        raise
    return t


class Result:
    def __init__(self, sub, shard):
        self.sub, self.shard = sub, shard
        self.evaluations = 0
        self.rejected = 0
        self.nontrivial = set()
        self.labels = {}
        self.samples = []
        self.violation = None      # (case, message)
        self.error = None
        self.cpu = 0.0


def run_task(sub, shard, n, seed):
    res = Result(sub.name, shard)
    state = {"first": None, "last": None, "hang": None}

    def one(case):
        if state["hang"] is not None:
            raise Violation("hang")
        res.evaluations += 1
        try:
            t = run_case(sub, case)
        except Violation as e:
            state["last"] = (case, str(e))
            if state["first"] is None:
                state["first"] = (case, str(e))
            raise
        except Hang as e:
            state["hang"] = (case, "does not terminate: %s" % e)
            raise Violation("hang")
        except Reject:
            res.rejected += 1
            res.evaluations -= 1
            hypothesis.reject()
        if state["first"] is None:
            for l in t.labels:
                res.labels[l] = res.labels.get(l, 0) + 1
            if t.nontrivial:
                text = dumps(case)
                h = hashlib.blake2b(text.encode(), digest_size=8).digest()
                if h not in res.nontrivial:
                    res.nontrivial.add(h)
                    # the first cases of a run are the simplest: keep later ones too
                    if len(text) < 1500 and len(res.nontrivial) >= 4 ** len(res.samples):
                        res.samples.append({"sub": sub.name, "case": case,
                                            "labels": sorted(t.labels)})

    start = time.process_time()
    try:
        if shard == 0:
            for case in sub.pinned:
                try:
                    one(json.loads(dumps(case)))
                except Violation:
                    res.violation = state["hang"] or state["last"]
                    return res
        if n > 0:
            # every search starts with the simplest case: leave it to one shard
            simplest = [None] if shard else []

            @hypothesis.seed(seed)
            @settings(max_examples=n + len(simplest), database=None, deadline=None,
                      derandomize=False, report_multiple_bugs=False,
                      suppress_health_check=list(HealthCheck),
                      phases=(Phase.generate, Phase.shrink),
                      print_blob=False)
            @hypothesis.given(sub.strategy)
            def test(case):
                if simplest:
                    simplest.pop()
                    return
                one(json.loads(dumps(case)))
            try:
                test()
            except BaseException as e:
                if state["hang"] is not None:
                    res.violation = state["hang"]
                elif state["last"] is not None:
                    # Hypothesis replays the smallest failing case last
                    res.violation = state["last"]
                    if not fails_again(sub, res.violation[0]):
                        res.violation = state["first"]
                elif isinstance(e, hypothesis.errors.Unsatisfiable):
                    res.error = "generator of %s: %s" % (sub.name, e)
                else:
                    raise
    except BaseException:
        res.error = traceback.format_exc()
    res.cpu = time.process_time() - start
    return res


def fails_again(sub, case):
    try:
        run_case(sub, case)
    except (Violation, Hang):
        return True
    except Exception:
        return False
    return False


def derive(seed, *parts):
    text = "/".join([str(seed)] + [str(p) for p in parts])
    return int.from_bytes(hashlib.blake2b(text.encode(), digest_size=6).digest(), "big")


def plan(subs, tier):
    tasks = []
    for sub in subs:
        n = sub.quick if tier == "quick" else sub.thorough
        shards = sub.shards or (WORKERS if n >= 8 * WORKERS else max(1, n // 8))
        if tier != "quick":
            shards *= 4
        shards = max(1, min(shards, n))
        for k in range(shards):
            tasks.append((k, sub, n // shards + (k < n % shards)))
    tasks.sort(key=lambda a: a[0])   # stable: first shards of every sub first
    return [(s, k, n) for k, s, n in tasks]


def child(sub, shard, n, seed, wfd):
    with contextlib.suppress(Exception):
        # do not outlive the parent (PR_SET_PDEATHSIG)
        ctypes.CDLL(None).prctl(1, signal.SIGKILL, 0, 0, 0)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get("VF_DEBUG"):
        os.dup2(devnull, 2)
    lim = 8 << 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    res = run_task(sub, shard, n, seed)
    data = pickle.dumps(res)
    with os.fdopen(wfd, "wb") as f:
        f.write(data)
    os._exit(0)


def execute(tasks, seed, wall):
    """runs the tasks in forked processes; stops at the first violation"""
    t0 = time.time()
    results, running, queue = [], {}, list(tasks)
    stopped = None
    while queue or running:
        while queue and len(running) < WORKERS:
            sub, shard, n = queue.pop(0)
            r, w = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    os.setpgid(0, 0)
                    child(sub, shard, n, derive(seed, sub.name, shard), w)
                finally:
                    os._exit(3)
            os.close(w)
            running[r] = (pid, sub, shard, [])
        left = wall - (time.time() - t0)
        ready, _, _ = select.select(list(running), [], [], max(0.1, min(left, 5)))
        for r in ready:
            data = os.read(r, 1 << 16)
            if data:
                running[r][3].append(data)
                continue
            os.close(r)
            pid, sub, shard, buf = running.pop(r)
            _, status = os.waitpid(pid, 0)
            try:
                res = pickle.loads(b"".join(buf))
            except Exception:
                res = Result(sub.name, shard)
                res.error = "worker of %s/%d died with status %d" % (
                    sub.name, shard, status)
            results.append(res)
            if res.violation:
                stopped = "violation"
        if stopped or time.time() - t0 > wall:
            stopped = stopped or "budget"
            for r, (pid, sub, shard, _) in running.items():
                with contextlib.suppress(OSError):
                    os.killpg(pid, signal.SIGKILL)
                with contextlib.suppress(OSError):
                    os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(r)
            queue.clear()
            running.clear()
    return results, stopped


def findings(pid):
    """open findings of this property: [(key, text)]"""
    out = []
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("open: property=%s " % pid):
                key = line.split("key=")[1].split()[0]
                out.append((key, line.split("key=" + key, 1)[1].strip()))
    return out


def main(argv):
    p = argparse.ArgumentParser()
    p.add_argument("property")
    p.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    p.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    p.add_argument("--replay")
    p.add_argument("--only", help="names of sub-checks, comma separated")
    p.add_argument("--scale", type=float, default=1.0)
    p.add_argument("-v", action="store_true")
    a = p.parse_args(argv)
    tier = "thorough" if a.tier == "thorough" else "quick"
    pid = a.property
    t0 = time.time()
    os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
    os.makedirs(EVIDENCE, exist_ok=True)

    import_error = load_copt()
    if import_error:
        # the library cannot be imported at all: nothing to decide
        print(import_error)
        print("ERROR: copt does not import")
        return 2
    if pid == "self-test":
        print("copt and hypothesis %s import" % hypothesis.__version__)
        return 0
    mod = importlib.import_module("vf.props.%s" % pid.lower())
    subs = mod.SUBS
    if a.only:
        subs = [s for s in subs if s.name in a.only.split(",")]
    byname = {s.name: s for s in mod.SUBS}

    if a.replay:
        data = json.load(open(a.replay))
        try:
            t = run_case(byname[data["sub"]], data["case"])
        except (Violation, Hang) as e:
            print(e)
            print("VIOLATION property=%s replay=%s" % (pid, a.replay))
            return 1
        print("holds; labels: %s" % sorted(t.labels))
        return 0

    known = []
    for key, text in findings(pid):
        data = json.load(open(os.path.join(ROOT, "findings", key + ".json")))
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                run_case(byname[data["sub"]], data["case"])
            print("NOTE: finding %s no longer reproduces" % key)
        except (Violation, Hang):
            print("KNOWN-FINDING: property=%s %s" % (pid, text))
            known.append(key)

    tasks = plan(subs, tier)
    if a.scale != 1.0:
        tasks = [(s, k, max(1, int(n * a.scale))) for s, k, n in tasks]
    wall = 780 if tier == "quick" else 4 * 3600
    scratch = tempfile.mkdtemp(prefix="vf-")
    os.environ["VF_SCRATCH"] = scratch
    try:
        results, stopped = execute(tasks, a.seed, wall)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    per, nontrivial, samples, labels = {}, set(), [], {}
    for s in subs:
        per[s.name] = {"evaluations": 0, "nontrivial": 0, "rejected": 0,
                       "cpu_s": 0.0, "rule": s.rule, "labels": {}}
    for r in sorted(results, key=lambda r: (r.sub, r.shard)):
        d = per[r.sub]
        d["evaluations"] += r.evaluations
        d["rejected"] += r.rejected
        d["cpu_s"] = round(d["cpu_s"] + r.cpu, 2)
        fresh = {(r.sub, h) for h in r.nontrivial} - nontrivial
        d["nontrivial"] += len(fresh)
        nontrivial |= fresh
        for l, c in r.labels.items():
            d["labels"][l] = d["labels"].get(l, 0) + c
        if sum(x["sub"] == r.sub for x in samples) < 2:
            samples += r.samples[-1:]
    violations = [r for r in results if r.violation]
    errors = [r for r in results if r.error]
    evidence = {
        "property": pid, "tier": tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(d["evaluations"] for d in per.values()),
            "distinct_nontrivial": len(nontrivial),
            "rule": getattr(mod, "RULE", "") + " Non-trivial, per sub-check: " + "; ".join(
                "%s: %s" % (s.name, s.rule) for s in subs),
            "samples": samples[:12],
            "sub_checks": per,
            "known_findings_reproduced": known,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    if stopped == "budget":
        evidence["coverage"]["inconclusive"] = "wall budget reached before all cases ran"
    with open(os.path.join(EVIDENCE, pid + ".json"), "w") as f:
        f.write(json.dumps(evidence, indent=1, default=_default))

    if a.v:
        for n, d in per.items():
            print("%-28s eval %5d nontriv %5d rej %3d cpu %6.1f  %s" % (
                n, d["evaluations"], d["nontrivial"], d["rejected"], d["cpu_s"],
                dict(sorted(d["labels"].items()))))
    if violations:
        r = violations[0]
        case, msg = r.violation
        name = "%s-%s-%s.json" % (pid, r.sub, hashlib.blake2b(
            dumps(case).encode(), digest_size=5).hexdigest())
        path = os.path.join(OUT, "replays", name)
        with open(path, "w") as f:
            f.write(json.dumps({"property": pid, "sub": r.sub, "message": msg,
                                "seed": a.seed, "tier": tier, "case": case},
                               indent=1, default=_default))
        print("%s/%s: %s" % (pid, r.sub, msg[:1500]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errors:
        for r in errors[:3]:
            print("ERROR in %s/%d:\n%s" % (r.sub, r.shard, r.error))
        return 2
    print("%s: held on %d cases (%d distinct non-trivial), %.1f s" % (
        pid, evidence["coverage"]["evaluations"], len(nontrivial), time.time() - t0))
    return 0
