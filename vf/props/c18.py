"""Callbacks observe every iteration without disturbing it, and can stop it."""
import time

import numpy as np
from hypothesis import strategies as st

from .. import gens, solvers, zoo
from ..core import Sub, arr, ensure, num

RULE = "random problems for each of the ten solvers; traces with random frequencies."


@st.composite
def case(draw, names=zoo.ALL):
    c = draw(zoo.case(names))
    c["max_iter"] = draw(st.integers(1, 25))
    c["freq"] = draw(st.integers(1, 7))
    c["k"] = draw(st.integers(1, 8))
    c["tol"] = draw(st.sampled_from([0.0, 1e-9, 1e-3, 0.05]))
    c["ret"] = draw(st.sampled_from([None, True]))
    c["numpy"] = draw(st.booleans())
    c["verbose"] = draw(st.sampled_from([None, None, 0, 1, 2]))
    return c


class Seen(list):
    """what the callback was shown, with the step sizes"""

    def __init__(self):
        super().__init__()
        self.steps = []


def collect(case, **kw):
    seen, raw = [], Seen()

    def callback(dl):
        if "step_size" in dl and case["solver"] != "sfw":
            raw.steps.append(dl["step_size"])
        ensure("x" in dl, "%s: the callback cannot see x", case["solver"])
        seen.append(arr(dl["x"], (case["d"],), "iterate").copy())
        raw.append(dl["x"])
        return case["ret"]
    res = zoo.solve(case, callback=callback, tol=case["tol"], max_iter=case["max_iter"], **kw)
    return res, seen, raw


def same(a, b, what):
    ensure(np.array_equal(np.asarray(a.x), np.asarray(b.x)) and a.nit == b.nit and bool(a.success) == bool(b.success),
           "%s: %r after %r iterations, %r after %r", what, np.asarray(a.x).tolist(), a.nit, np.asarray(b.x).tolist(),
           b.nit)


def check_observe(case, t):
    """a callback that only looks changes nothing, sees the start (where it is
    called before the first step) and one iterate per iteration"""
    s = case["solver"]
    res, seen, _ = collect(case)
    x = solvers.solution(res, (case["d"],), s)
    more = {} if case["verbose"] is None else {"verbose": case["verbose"]}
    bare = zoo.solve(case, tol=case["tol"], max_iter=case["max_iter"], **more)
    same(bare, res, "%s without callback%s and with a callback" % (s, ", verbose=%r," % case["verbose"] if more else ""))
    n = len(seen)
    steps = case["n"] // case["batch"] if s == "sfw" else 1
    low, high = (res.nit + 1 - (s == "pdhg")) * steps, (res.nit + 2) * steps + 1
    if s == "sfw" and res.success:
        low = res.nit * steps + 1
    ensure(low <= n <= high, "%s: %d callbacks in %d iterations", s, n, res.nit)
    x0 = np.array(case["x0"])
    if s in ("pgd", "apgd", "saga", "svrg", "sfw", "fw", "pfw"):
        ensure(np.max(np.abs(seen[0] - x0)) <= 1e-12 * (1 + np.abs(x0).max()), "%s: first iterate shown %s, x0 %s", s,
               seen[0].tolist(), x0.tolist())
    if s in ("saga", "svrg", "vrtos", "sfw", "tos", "fw", "pfw"):
        ensure(np.array_equal(seen[-1], x), "%s: last iterate shown %s, solution %s", s, seen[-1].tolist(), x.tolist())
    t.hit(n > 2 and any(not np.array_equal(seen[0], v) for v in seen), s)
    t.label("stopped by tolerance" if res.success else "")


def check_trace(case, t):
    """Trace records every freq-th iterate, or the objective there"""
    from copt.utils import Trace
    s = case["solver"]
    _, seen, raw = collect(case)
    xs, fx = Trace(freq=case["freq"]), None
    f = gens.build_loss(case)
    fx = Trace(f, freq=case["freq"])
    zoo.solve(case, callback=xs, tol=case["tol"], max_iter=case["max_iter"])
    zoo.solve(case, callback=fx, tol=case["tol"], max_iter=case["max_iter"])
    want = seen[::case["freq"]]
    ensure(len(xs.trace_x) == len(want) and not xs.trace_fx, "%s: trace of %d iterates out of %d with frequency %d", s,
           len(xs.trace_x), len(seen), case["freq"])
    ensure(len(fx.trace_fx) == len(want) and not fx.trace_x, "%s: trace of %d values out of %d with frequency %d", s,
           len(fx.trace_fx), len(seen), case["freq"])
    for k, (v, w) in enumerate(zip(xs.trace_x, want)):
        ensure(np.array_equal(np.asarray(v), w), "%s: entry %d of the trace is %s, the iterate was %s", s, k,
               np.asarray(v).tolist(), w.tolist())
    for k, (v, w) in enumerate(zip(fx.trace_fx, want)):
        ensure(abs(num(v) - f(w)) <= 1e-12 * (1 + abs(v)), "%s: value %d of the trace is %r, expected %r", s, k, v, f(w))
    for tr in (xs, fx):
        ensure(len(tr.trace_time) == len(want) == len(tr.trace_step_size), "%s: %d times and %d steps for %d entries", s,
               len(tr.trace_time), len(tr.trace_step_size), len(want))
        steps = raw.steps[::case["freq"]]
        for k, (v, w) in enumerate(zip(tr.trace_step_size, steps)):
            ensure(np.array_equal(v, w), "%s: step size %d of the trace is %r, it was %r", s, k, v, w)
        ts = [num(v) for v in tr.trace_time]
        ensure(all(a <= b for a, b in zip([0.0] + ts, ts)), "%s: times decrease: %s", s, ts)
    t.hit(len(want) > 1, s)
    t.label("freq>1" if case["freq"] > 1 else "")


@st.composite
def clock_case(draw):
    c = draw(case())
    c["max_iter"], c["tol"] = draw(st.integers(1, 4)), 0.0
    c["sleep"] = draw(st.sampled_from([0.01, 0.3, 0.7]))
    return c


def check_clock(case, t):
    """the times of a trace are seconds since it was made"""
    from copt.utils import Trace
    before = time.monotonic()
    tr = Trace()
    after = time.monotonic()
    low, high = [], []

    def callback(dl):
        time.sleep(case["sleep"])
        low.append(time.monotonic() - after)
        tr(dl)
        high.append(time.monotonic() - before)
    zoo.solve(case, callback=callback, tol=0.0, max_iter=case["max_iter"])
    ensure(len(tr.trace_time) == len(low), "%d times for %d callbacks", len(tr.trace_time), len(low))
    for a, v, b in zip(low, tr.trace_time, high):
        ensure(a - 0.05 <= num(v) <= b + 0.05, "%s: the trace has time %r between %r and %r seconds", case["solver"], v, a, b)
    t.hit(high[-1] > 1, case["solver"])


def check_stop(case, t):
    """returning False stops at once, at the iterate being shown"""
    s = case["solver"]
    full, everything, _ = collect(case)
    seen = []

    def callback(dl):
        seen.append(np.array(dl["x"], dtype=float))
        if case["numpy"]:
            # the result of a comparison of NumPy numbers
            return np.int64(len(seen)) < case["k"]
        return False if len(seen) >= case["k"] else case["ret"]
    res = zoo.solve(case, callback=callback, tol=case["tol"], max_iter=case["max_iter"])
    x = solvers.solution(res, (case["d"],), s)
    if len(everything) - (s in ("fw", "pfw")) < case["k"]:
        # it ended before
        same(full, res, "%s with a callback that stops later" % s)
        t.label("ended before")
        return
    extra = 1 if s in ("fw", "pfw") else 0        # a last call after the loop
    ensure(case["k"] <= len(seen) <= case["k"] + extra, "%s: asked to stop at callback %d, got %d more", s, case["k"],
           len(seen) - case["k"])
    for a, b in zip(seen[:case["k"]], everything):
        ensure(np.array_equal(a, b), "%s: the iterates depend on a later stop", s)
    ensure(np.array_equal(x, seen[case["k"] - 1]), "%s: stopped at %s but returned %s", s, seen[case["k"] - 1].tolist(),
           x.tolist())
    ensure(not res.success or s in ("fw", "pfw"), "%s: success although stopped by the callback", s)
    t.hit(case["k"] > 1, s)


SUBS = [
    Sub("observe", case(), check_observe, 1200, rule="more than two callbacks, the iterate moves"),
    Sub("trace", case(), check_trace, 1000, rule="more than one entry in the trace"),
    Sub("clock", clock_case(), check_clock, 24, thorough=48, rule="more than one second"),
    Sub("stop", case(zoo.BATCH), check_stop, 1000, rule="stopped after the first callback"),
    Sub("large", gens.large(case(), 40, 20), check_observe, 100, rule="as observe"),
]
