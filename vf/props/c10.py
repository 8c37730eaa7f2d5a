"""Descent and convergence rates of proximal gradient."""
import numpy as np
from hypothesis import strategies as st

from .. import gens, refs, solvers
from ..core import Sub, arr, ensure, num
from . import c09

RULE = ("as for convergence, with condition numbers up to 1000; the iterates seen by the callback "
        "are compared with the theoretical envelopes at every iteration.")


@st.composite
def case(draw, acc):
    c = draw(gens.loss_case(n_max=8, d_max=6))
    c["ratio"] = draw(st.sampled_from([0.001, 0.01, 0.1, 0.5]))
    c["pen"] = draw(gens.penalty_case(c["d"], gens.EXACT))
    c["x0"] = draw(gens.vec(c["d"]))
    c["acc"] = acc
    c["step"] = "constant" if acc else draw(st.sampled_from(["backtracking", "constant", "varying"]))
    if c["step"] == "backtracking":
        c["factor"] = draw(st.sampled_from([None, None, 0.3, 0.5, 0.8, 0.95]))
    c["iters"] = draw(st.integers(5, 40))
    return c


def check(case, t):
    c = dict(case)
    pen = c["pen"]
    # a feasible start, so that the objective is finite from the beginning
    c["x0"] = refs.prox(pen, np.array(c["x0"]), 1e-3 if "radius" not in pen else 1.0).tolist()
    xs_seen, steps = [], []

    def callback(loc):
        xs_seen.append(arr(loc["x"], (c["d"],), "iterate").copy())
        steps.append(loc.get("step_size"))

    res, f, _ = c09.run(c, callback=callback, max_iter=c["iters"], tol=0.0)
    L, mu = f.L, f.mu
    xopt = refs.solve(c, pen)
    slack = 1e-7 * pen.get("radius", 1)

    def F(x):
        return f.ref.value(x) + refs.pen_value(pen, x, slack)
    Fs = F(xopt)
    D2 = float(np.sum((xs_seen[0] - xopt) ** 2))
    vals = [F(x) for x in xs_seen]
    # refs.solve is exact to about 1e-10
    noise = 1e-11 * (1 + max(abs(v) for v in vals)) + 1e-9 * np.sqrt(D2) * (1 + L)
    if not case["acc"]:
        noise_d = 1e-11 * (1 + max(abs(v) for v in vals))
        total = 0.0
        for k in range(1, len(vals)):
            dx2 = float(np.sum((xs_seen[k] - xs_seen[k - 1]) ** 2))
            if c["step"] == "backtracking":
                s = num(steps[k], "step size")
                ensure(s > 0, "step size %r", s)
                used, dec = s / 1.1, dx2 / (2 * s)
            else:
                used = 0.4 / L if c["step"] == "varying" else 1 / L
                dec = 0.5 * L * dx2
            total += used
            ensure(vals[k] <= vals[k - 1] - dec * (1 - 1e-9) + noise_d,
                   "iteration %d: objective went from %r to %r, a decrease of %g was due", k,
                   vals[k - 1], vals[k], dec)
            ensure(vals[k] - Fs <= D2 / (2 * total) + noise, "iteration %d: gap %g above the rate %g",
                   k, vals[k] - Fs, D2 / (2 * total))
            if c["step"] == "constant":
                e2 = float(np.sum((xs_seen[k] - xopt) ** 2))
                ensure(np.sqrt(e2) <= (1 - mu / L) ** (k / 2) * np.sqrt(D2) * (1 + 1e-9) + 1e-7 * (1 + np.sqrt(D2)),
                       "iteration %d: distance %g above the linear rate", k, np.sqrt(e2))
    else:
        for k in range(1, len(vals)):
            ensure(vals[k] - Fs <= 2 * L * D2 / (k + 1) ** 2 + noise,
                   "iteration %d: gap %g above the accelerated rate %g", k, vals[k] - Fs, 2 * L * D2 / (k + 1) ** 2)
    t.hit(len(vals) > 4 and vals[0] - Fs > 1e-6, pen["kind"])
    t.label(c["step"], c["loss"])


@st.composite
def hard_case(draw):
    """a long thin quadratic, the worst case of first-order methods: here the
    accelerated method is far ahead of the plain one"""
    d = draw(st.integers(10, 250))
    return {"d": d, "iters": draw(st.integers(20, 1200)), "step": draw(st.sampled_from(["constant", "backtracking"])), "shift": draw(st.sampled_from([1.0, -2.0, 5.0])),
            "scale": draw(st.sampled_from([0.5, 1.0, 4.0]))}


def check_hard(case, t):
    from copt import minimize_proximal_gradient
    d = case["d"]
    A = (2 * np.eye(d) - np.diag(np.ones(d - 1), 1) - np.diag(np.ones(d - 1), -1)) * case["scale"]
    b = np.zeros(d)
    b[0] = case["shift"]
    xs = np.linalg.solve(A, b)
    L = 4.0 * case["scale"]

    def fg(x):
        return 0.5 * x @ A @ x - b @ x, A @ x - b
    seen = []
    search = case["step"] == "backtracking"
    minimize_proximal_gradient(fg, np.zeros(d), jac=True, step="backtracking" if search else lambda loc: 1 / L, tol=0.0,
                               max_iter=case["iters"], accelerated=True,
                               callback=lambda loc: seen.append(loc["x"].copy()))
    # the line search halves steps until they are admissible: at least 1 / (2 L)
    L *= 2 if search else 1
    D2 = xs @ xs
    Fs = fg(xs)[0]
    for k, x in enumerate(seen[1:], 1):
        x = arr(x, (d,), "iterate")
        ensure(fg(x)[0] - Fs <= 2 * L * D2 / (k + 1) ** 2 * (1 + 1e-9) + 1e-10 * (1 + D2 * L),
               "iteration %d of the accelerated method: gap %g, rate %g", k, fg(x)[0] - Fs, 2 * L * D2 / (k + 1) ** 2)
    t.hit(len(seen) > 10, case["step"])


@st.composite
def slow_case(draw):
    """directions of little curvature, which take thousands of iterations"""
    c = {"curv": [10.0 ** -draw(st.floats(2, 8)) for _ in range(draw(st.integers(1, 3)))], "step": draw(st.sampled_from(
        ["constant", "backtracking"])), "acc": draw(st.booleans()), "iters": draw(st.sampled_from([2000, 5000, 9000])),
         "scale": draw(st.sampled_from([0.1, 1.0, 100.0])), "x0": draw(gens.vec(4)), "l1": draw(st.sampled_from([0.0, 0.0, 1e-6]))}
    return c


def check_slow(case, t):
    from copt import minimize_proximal_gradient
    from copt.penalty import L1Norm
    q = np.array([1.0] + case["curv"]) * case["scale"]
    L, lam, d = case["scale"], case["l1"] * case["scale"], len(q)
    x0 = np.array(case["x0"])[:d]
    x0 += 1.0 * (x0 == 0)

    def fg(x):
        return 0.5 * float(np.sum(q * x * x)), q * x
    seen = []
    search = case["step"] == "backtracking"

    def callback(loc):
        seen.append((loc["x"].copy(), loc.get("step_size")))
    minimize_proximal_gradient(fg, x0, L1Norm(lam).prox if lam else None, jac=True, tol=0.0, max_iter=case["iters"],
                               step="backtracking" if search else lambda loc: 1 / L, accelerated=case["acc"], callback=callback)
    X = np.array([s[0] for s in seen])
    ensure(X.shape == (len(X), d) and np.all(np.isfinite(X)), "iterates")
    gap = 0.5 * (X * X) @ q + lam * np.abs(X).sum(1)
    k = np.arange(1, len(X))
    D2 = float(x0 @ x0)
    if case["acc"]:
        rate = 2 * L * (2 if search else 1) * D2 / (k + 1.0) ** 2
    elif search:
        rate = D2 / (2 * np.cumsum([num(s[1]) / 1.1 for s in seen[1:]]))
    else:
        rate = L * D2 / (2 * k)
    bad = np.flatnonzero(gap[1:] > rate * (1 + 1e-9) + 1e-13 * (1 + L * D2))
    ensure(not bad.size, "iteration %d of %s proximal gradient (%s): gap %g above the rate %g", *(
        (bad[0] + 1, "accelerated" if case["acc"] else "plain", case["step"], gap[bad[0] + 1], rate[bad[0]]) if bad.size else [0] * 5))
    if not case["acc"]:
        up = np.flatnonzero(np.diff(gap) > 1e-13 * (1 + gap[:-1]))
        ensure(not up.size, "iteration %d of plain proximal gradient increases the objective", *up[:1] + 1 if up.size else [0])
    t.hit(len(X) > 1000, "acc" if case["acc"] else "plain")
    t.label(case["step"])


SUBS = [
    Sub("descent", case(False), check, 500, thorough=10000, rule="five iterations or more from a non-optimal start"),
    Sub("accelerated", case(True), check, 300, thorough=6000, rule="as descent"),
    Sub("worst_case", hard_case(), check_hard, 150, thorough=600, rule="more than ten iterations"),
    Sub("slow", slow_case(), check_slow, 48, thorough=600, rule="more than 1000 iterations"),
    Sub("descent_large", gens.large(case(False)), check, 60, rule="as descent"),
    Sub("accelerated_large", gens.large(case(True)), check, 60, rule="as descent"),
]
