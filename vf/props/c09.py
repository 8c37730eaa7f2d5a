"""Proximal gradient, plain and accelerated, reaches the minimizer."""
import numpy as np
from hypothesis import strategies as st

from .. import gens, refs, solvers
from ..core import Reject, Sub, arr, ensure

RULE = ("logistic, square and Huber losses with ridge (condition number at most 50), eleven "
        "penalties/constraints, starts inside and outside the domain, plain/accelerated, "
        "backtracking with varied parameters, constant and varying callable steps.")


@st.composite
def case(draw):
    c = draw(gens.loss_case(n_max=8, d_max=6))
    c["pen"] = draw(gens.penalty_case(c["d"], gens.EXACT))
    c["x0"] = draw(st.one_of(st.just([0.0] * c["d"]), gens.vec(c["d"])))
    c["acc"] = draw(st.booleans())
    c["step"] = draw(st.sampled_from(["backtracking", "backtracking", "constant", "varying"]))
    if c["step"] == "backtracking":
        c["factor"] = draw(st.sampled_from([None, None, 0.3, 0.5, 0.8, 0.95]))
    c["fmt"] = draw(st.sampled_from(["dense", "csr", "csc"]))
    return c


def run(case, callback=None, max_iter=20000, tol=None, **more):
    from copt import minimize_proximal_gradient
    f = solvers.Smooth(case, case.get("fmt", "dense"), what="proximal gradient")
    g = solvers.Prox(case["pen"], scale=f.scale, k=f.k)
    kw = dict(more)
    calls = []
    if case["step"] == "backtracking":
        kw["step"] = "backtracking"
        if case.get("factor"):
            kw["backtracking_factor"] = case["factor"]
    elif case["step"] == "constant":
        kw["step"] = lambda loc: 1.0 / f.L
    else:
        def step(loc):
            calls.append(1)
            return [1.0, 0.4, 0.7][len(calls) % 3] / f.L
        kw["step"] = step
    x0 = np.array(case["x0"], dtype=float) / f.k
    if tol is None:
        tol = 1e-6 * f.L / f.k
    res = minimize_proximal_gradient(
        f.f_grad, x0, g.or_none(), jac=True, tol=tol, max_iter=max_iter,
        accelerated=case["acc"], callback=callback, **kw)
    return res, f, tol


def check(case, t):
    res, f, tol = run(case)
    x = solvers.solution(res, (case["d"],))
    what = "%s proximal gradient, %s steps" % ("accelerated" if case["acc"] else "plain", case["step"])
    ensure(bool(res.success), "%s did not converge in 20000 iterations (certificate %r)", what, res.certificate)
    # strong convexity: a gradient mapping of norm tol leaves at most this error
    slack = 200 if case["acc"] else 2.0
    xs = solvers.check_minimizer(case, case["pen"], x, slack * tol / f.mu + 1e-8, what)
    gap = refs.objective(f.ref, [case["pen"]], x, slack=1e-6 * case["pen"].get("radius", 1)) - refs.objective(
        f.ref, [case["pen"]], xs, slack=1e-6 * case["pen"].get("radius", 1))
    ensure(gap <= slack ** 2 * tol ** 2 / f.mu * 3 + 1e-9 * (1 + abs(f.ref.value(xs))) + (
        slack * tol / f.mu) * np.linalg.norm(f.ref.grad(xs)) * 2, "%s: objective above the minimum by %g", what, gap)
    # the certificate is that of a nearby point: compare with our own mapping
    G = np.linalg.norm(refs.gradient_mapping(f.ref, case["pen"], x, 1.0 / f.L))
    ensure(G <= (200 if case["step"] == "backtracking" else 20) * tol, "%s: gradient mapping %g at the solution, tol %g", what, G, tol)
    t.hit(res.nit > 3, case["pen"]["kind"])
    t.label(case["loss"], "acc" if case["acc"] else "plain", case["step"])


@st.composite
def limited_case(draw):
    c = draw(case())
    c["step"] = "backtracking"
    # the step must not grow when every iteration runs into the limit
    c["factor"], c["limit"] = draw(st.sampled_from([(None, 1), (None, 3), (0.3, 1), (0.5, 2), (0.8, 1), (0.8, 2), (0.9, 2),
                                                    (0.95, 2), (0.95, 3), (0.95, 5)]))
    c["iters"] = draw(st.sampled_from([3, 1000]))
    return c


def check_limited(case, t):
    """a line search cut short may be slow or fail, but success stays true"""
    out = solvers.unless_diverged(lambda: run(case, max_iter=case["iters"], max_iter_backtracking=case["limit"]))
    if out is None:
        t.label("diverged")
        return
    res, f, tol = out
    what = "%s proximal gradient, %d line-search iterations" % ("accelerated" if case["acc"] else "plain", case["limit"])
    if res.success:
        x = solvers.solution(res, (case["d"],))
        solvers.check_minimizer(case, case["pen"], x, 200 * tol / f.mu + 1e-8, what)
        t.hit(res.nit > 3, case["pen"]["kind"])
    t.label("success" if res.success else "failure", "acc" if case["acc"] else "plain")


@st.composite
def scaled_case(draw):
    c = draw(case())
    c["fscale"] = draw(st.sampled_from([1e-6, 1e-3, 30.0, 1e3, 1e6]))
    return c


@st.composite
def units_case(draw):
    c = draw(case())
    c["fscale"] = draw(st.sampled_from([1.0, 1e-3, 1e3]))
    # the first estimate of the Lipschitz constant is at least 1e-3
    c["xscale"] = draw(st.sampled_from([100.0, 1e3, 1e6] + ([] if c["step"] == "backtracking" else [1e-6, 1e-3])))
    return c


def check_scaled(case, t):
    """other units of the objective and the variables do not move the minimizer"""
    res, f, tol = run(case)
    x = solvers.solution(res, (case["d"],)) * f.k
    what = "%s proximal gradient, %s steps, objective times %g, variables divided by %g" % ("accelerated" if case["acc"] else "plain", case["step"],
                                                                   f.scale, f.k)
    ensure(bool(res.success), "%s did not converge in 20000 iterations (certificate %r)", what, res.certificate)
    solvers.check_minimizer(case, case["pen"], x, (200 if case["acc"] else 2.0) * tol / f.mu * f.k + 1e-8, what)
    t.hit(res.nit > 3, case["pen"]["kind"])
    t.label("%g %g" % (f.scale, f.k), "acc" if case["acc"] else "plain", case["step"])


@st.composite
def own_case(draw):
    c = draw(gens.own_case(case()))
    c["step"] = "backtracking"
    return c


def check_own(case, t):
    """smooth functions of the user, whose curvature changes along the way"""
    res, f, tol = run(case)
    x = solvers.solution(res, (case["d"],))
    what = "%s proximal gradient with line search on a user's function (%s)" % ("accelerated" if case["acc"] else "plain", case["loss"])
    ensure(bool(res.success), "%s did not converge in 20000 iterations (certificate %r)", what, res.certificate)
    xs, z, r = refs.solve_sum(case, [case["pen"]])
    if r > 1e-9:
        raise Reject("the reference solver did not converge")
    solvers.check_minimizer(case, case["pen"], x, (200 if case["acc"] else 2.0) * tol / f.mu + 1e-8, what, xs)
    t.hit(res.nit > 3, case["pen"]["kind"])
    t.label(case["loss"], "acc" if case["acc"] else "plain")


SUBS = [
    Sub("converges", case(), check, 900, thorough=20000, rule="more than three iterations were needed"),
    Sub("large", gens.large(case()), check, 100, thorough=2000, rule="as converges"),
    Sub("scaled", scaled_case(), check_scaled, 300, rule="as converges"),
    Sub("units", units_case(), check_scaled, 300, rule="as converges"),
    Sub("own", own_case(), check_own, 400, rule="as converges"),
    Sub("limited", limited_case(), check_limited, 800, rule="success after more than three iterations"),
]
