"""Vocabulary shared by the checks: violations, sub-checks, output validation."""
import gc
import os
import signal
import sys
import threading
import warnings

import numpy as np


class Violation(Exception):
    """The property does not hold on this case."""


class Hang(BaseException):
    """The case used far more CPU time than any case ever needs."""


class Reject(Exception):
    """The case is outside the domain of the property (counted, not silent)."""


class Sub:
    """One executable statement: a case generator and an oracle.

    name      identifies it in replay files and evidence
    strategy  Hypothesis strategy producing a JSON-able dict
    check     check(case, t): raises Violation, records labels on t
    quick/thorough   number of generated cases
    rule      what makes a case non-trivial
    cost      relative cost of a case, to balance shards
    """

    def __init__(self, name, strategy, check, quick, thorough=None, rule="",
                 shards=None, cpu_limit=90, pinned=()):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough if thorough is not None else 12 * quick
        self.rule = rule
        self.shards = shards
        self.cpu_limit = cpu_limit
        self.pinned = list(pinned)


class Track:
    """Collects what a case exercised."""

    def __init__(self):
        self.labels = set()
        self.nontrivial = False

    def label(self, *names):
        for n in names:
            if n:
                self.labels.add(n)

    def hit(self, cond=True, label=None):
        """mark the case as non-trivial"""
        if cond:
            self.nontrivial = True
            if label:
                self.labels.add(label)


def fail(msg, *args):
    raise Violation(msg % args if args else msg)


def ensure(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def short(a):
    """the entries of an array, for messages"""
    a = np.asarray(a)
    v = a.ravel()
    return a.tolist() if v.size <= 60 else "%s ... (%d entries)" % (v[:20].tolist(), v.size)


def arr(x, shape=None, what="result", finite=True):
    """validate that an output is a real array of the expected shape"""
    try:
        a = np.asarray(x)
        if a.dtype == object:
            raise ValueError("object array")
        a = a.astype(float)
    except (TypeError, ValueError) as e:
        raise Violation("%s is not a real array: %r (%s)" % (what, type(x), e))
    if shape is not None and a.shape != tuple(np.atleast_1d(shape)):
        raise Violation("%s has shape %s, expected %s" % (what, a.shape, shape))
    if finite and not np.all(np.isfinite(a)):
        raise Violation("%s is not finite: %s" % (what, short(a)))
    return a


def num(x, what="value", finite=True):
    try:
        v = float(x)
    except (TypeError, ValueError) as e:
        raise Violation("%s is not a number: %r (%s)" % (what, x, e))
    if finite and not np.isfinite(v):
        raise Violation("%s is not finite: %r" % (what, v))
    return v


def close(a, b, tol, what, *args):
    """max-norm comparison against an absolute tolerance"""
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        raise Violation("%s: shapes %s and %s differ" % (
            what % args if args else what, a.shape, b.shape))
    if a.size == 0:
        return
    err = np.max(np.abs(a - b))
    if not err <= tol:
        raise Violation("%s: off by %.3g (tolerance %.3g): got %s, expected %s" % (
            what % args if args else what, err, tol, short(a), short(b)))


def settings():
    """what a process shares and a library has no business to change"""
    mask = os.umask(0o22)
    os.umask(mask)
    return {"floating-point errors": np.geterr(), "warning filters": list(warnings.filters), "print options": np.get_printoptions(),
            "environment": dict(os.environ), "working directory": os.getcwd(), "recursion limit": sys.getrecursionlimit(),
            "garbage collector": gc.isenabled(), "number of threads": threading.active_count(), "standard output": sys.stdout,
            "hooks": (sys.excepthook, warnings.showwarning, np.geterrcall()), "umask": mask}


def restore(before):
    np.seterr(**before["floating-point errors"])
    warnings.filters[:] = before["warning filters"]
    np.set_printoptions(**{k: v for k, v in before["print options"].items() if k != "override_repr"})
    os.environ.clear()
    os.environ.update(before["environment"])
    os.chdir(before["working directory"])
    sys.setrecursionlimit(before["recursion limit"])
    gc.enable() if before["garbage collector"] else gc.disable()
    sys.stdout = before["standard output"]
    sys.excepthook, warnings.showwarning = before["hooks"][:2]
    np.seterrcall(before["hooks"][2])
    os.umask(before["umask"])


def unchanged(job, what):
    """job() leaves the settings alone.  Done twice if it does not: the first
    use of some library may have set something up"""
    with warnings.catch_warnings(record=True), np.errstate(all="warn"):
        warnings.simplefilter("always")
        return _unchanged(job, what)


def _unchanged(job, what):
    before = settings()
    for _ in (1, 2):
        out = job()
        now = settings()
        changed = [k for k in before if now[k] != before[k]]
        if not changed:
            return out
        restore(before)
    raise Violation("%s changed the %s of the process" % (what, ", ".join(changed)))


class Budget:
    """Counts calls; turns non-termination into a deterministic violation."""

    def __init__(self, limit, what):
        self.n = 0
        self.limit = limit
        self.what = what

    def tick(self):
        self.n += 1
        if self.n > self.limit:
            raise Violation("%s: more than %d evaluations, does not terminate"
                            % (self.what, self.limit))


class cpu_limit:
    """user CPU seconds (not wall clock), orders of magnitude above need"""

    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        def handler(signum, frame):
            raise Hang("used more than %d s of CPU time" % self.seconds)
        self.old = signal.signal(signal.SIGVTALRM, handler)
        signal.setitimer(signal.ITIMER_VIRTUAL, self.seconds)

    def __exit__(self, *exc):
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, self.old)
        return False
