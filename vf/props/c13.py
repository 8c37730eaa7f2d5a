"""Frank-Wolfe stays feasible, measures the gap, and converges at its rate."""
import numpy as np
from hypothesis import strategies as st

from .. import fw, gens, refs, solvers
from ..core import Sub, arr, close, ensure, num

RULE = ("convex losses with or without ridge over l1 balls, simplices, trace-norm balls and convex "
        "hulls of points, from vertices and from inside, every step-size strategy; the history is "
        "read off the calls to the oracle.")
EPS = float(np.finfo(np.float32).eps)


@st.composite
def case(draw):
    c = draw(gens.loss_case(n_max=6, d_max=6))
    if draw(st.booleans()):
        c["alpha"] = 0.0
    c["set"] = draw(fw.set_case(c["d"]))
    c["x0"] = draw(fw.start(c["set"], c["d"]))
    c["step"] = draw(st.sampled_from(["backtracking", "backtracking", "DR", "sublinear", "callable"]))
    c["lip"] = draw(st.sampled_from([None, 1e-5, 0.1, 1.0, 10.0]))
    c["over"] = draw(st.sampled_from([1.0, 1.0, 3.0]))
    c["jac"] = draw(st.booleans())
    c["tol"] = draw(st.sampled_from([0.2, 0.05, 0.01, 0.002]))
    if c["loss"] != "log" and draw(st.integers(0, 3)) == 0:
        # far from a fit: objective values are large compared with their variation
        c["b"] = [v + 1000.0 * (-1) ** i for i, v in enumerate(c["b"])]
    return c


def zmax(c):
    """largest |A x| over the feasible set"""
    A = np.array(c["A"])
    if c["set"]["kind"] == "hull":
        return float(np.abs(A @ np.array(c["set"]["points"]).T).max())
    return float(np.linalg.norm(A, axis=1).max() * c["set"]["radius"])


@st.composite
def own_case(draw):
    return draw(gens.own_case(case(), zmax))


@st.composite
def rest_case(draw):
    """many more iterations than needed: the objective no longer decreases"""
    c = draw(case())
    c["step"] = draw(st.sampled_from(["backtracking", "backtracking", "DR"]))
    c["over"] = 1.0
    c["rest"] = draw(st.sampled_from([50, 200, 500]))
    c["set"] = dict(c["set"])
    if "radius" in c["set"]:
        c["set"]["radius"] *= draw(st.sampled_from([1.0, 10.0]))
    return c


@st.composite
def long_case(draw):
    """small problems, thousands of iterations"""
    c = draw(case())
    c["step"] = draw(st.sampled_from(["sublinear", "callable", "DR", "backtracking"]))
    c["over"], c["rest"] = 1.0, draw(st.sampled_from([1500, 3000]))
    return c


def check(case, t):
    from copt import minimize_frank_wolfe
    d, s, step = case["d"], case["set"], case["step"]
    f = solvers.Smooth(case, what="Frank-Wolfe")
    ref, L, D, R = f.ref, f.L, fw.diameter(s), fw.radius(s)
    x0 = fw.start_point(s, d, case["x0"])
    keep = x0.copy()
    rec = fw.Recorder(fw.build(s))
    given = []
    kw, L0 = {}, L
    if step == "backtracking" and case["lip"] is not None:
        L0 = case["lip"] * L
        kw["lipschitz"] = L0
    if step == "DR":
        L0 = case["over"] * L
        kw["lipschitz"] = L0
    arg = step
    if step == "callable":
        def arg(dl):
            given.append(1.0 / (1.5 + len(given)))
            return given[-1]
    # the gap falls below tol within a number of iterations given by theory
    Lmax = max(L0, 2 * L)
    scale_gap = max(Lmax * D * D, 1e-9)
    g0 = refs_gap(ref, s, x0)
    tol = max(case["tol"] * g0, scale_gap / 300, 1e-5)
    bound = int(16 * scale_gap / tol) + 40
    if step == "callable":
        bound = int(40 * scale_gap / tol) + 40
    rest = "rest" in case
    if rest:
        tol, bound = 1e-10 * (1 + g0), case["rest"]
    if case["jac"]:
        res = minimize_frank_wolfe(f.f_grad, x0, rec, jac=True, step=arg, tol=tol, max_iter=bound, **kw)
    else:
        res = minimize_frank_wolfe(f.fun, x0, rec, jac=f.jac, step=arg, tol=tol, max_iter=bound, **kw)
    x = solvers.solution(res, (d,))
    what = "Frank-Wolfe (%s)" % step
    ensure(np.array_equal(x0, keep), "%s changed x0", what)
    ensure(rec.calls, "%s never called the oracle", what)
    scale = 1 + R
    close(rec.calls[0][1], x0, 1e-12 * scale, "%s: first iterate", what)
    vals = [ref.value(c[1]) for c in rec.calls]
    for k, (u, xk, dk, mx, _, _, _) in enumerate(rec.calls):
        g = ref.grad(xk)
        close(u, -g, 1e-8 * (1 + np.abs(g).max()), "%s: direction given to the oracle at iterate %d", what, k)
        bad = fw.infeasibility(s, xk)
        ensure(bad <= 1e-8 * scale, "%s: iterate %d infeasible by %g", what, k, bad)
    ensure(fw.infeasibility(s, x) <= 1e-8 * scale, "%s: solution infeasible by %g", what, fw.infeasibility(s, x))
    gam = fw.steps_between(rec.calls, x, scale, what)
    gaps = [c[2] @ c[0] for c in rec.calls]
    n = len(rec.calls)
    fend = vals + [ref.value(x)]
    for k in range(n):
        moved = gam[k] > 0 or k < n - 1
        if not moved:
            continue
        _, xk, dk, mx, _, _, _ = rec.calls[k]
        n2, gap = dk @ dk, gaps[k]
        if n2 == 0:
            continue
        slack = 1e-9 * (1 + abs(fend[k]))
        full = gap / (n2 * L0)
        if step == "sublinear":
            want = 2.0 / (k + 2)
        elif step == "DR":
            want = min(full, mx)
        elif step == "callable":
            want = given[k]
        else:
            want = None
            ensure(fend[k + 1] <= fend[k] - 0.5 * gam[k] * gap + EPS + slack,
                   "%s: step %d does not decrease the objective sufficiently: %r to %r, gap %r, step %r",
                   what, k, fend[k], fend[k + 1], gap, gam[k])
            low = min(mx, gap / (n2 * Lmax))
            ensure(gam[k] >= low * (1 - 1e-4) - 1e-7, "%s: step %d is %r, at least %r was admissible", what,
                   k, gam[k], low)
        if want is not None:
            # measured from the iterates: short directions are rounded
            ensure(abs(gam[k] - want) <= 1e-7 * (1 + abs(want)) + 4e-15 * scale / np.sqrt(n2), "%s: step %d is %r, expected %r", what, k, gam[k], want)
        if step == "DR":
            ensure(fend[k + 1] <= fend[k] - 0.5 * gam[k] * gap + slack, "%s: step %d increases the objective", what, k)
    # stopping
    stopped = n < bound or gaps[-1] <= tol
    cert = num(res.certificate)
    ensure(abs(cert - gaps[-1]) <= 1e-9 * (1 + abs(cert)) + 1e-12 * g0, "%s: certificate %r, gap of the last oracle call %r",
           what, cert, gaps[-1])
    ensure(bool(res.success) == (cert <= tol), "%s: success is %r with gap %r and tol %r", what, res.success, cert, tol)
    ensure(rest or bool(res.success), "%s: gap %r above %r after %d iterations", what, cert, tol, bound)
    true = refs_gap(ref, s, x)
    ensure(not res.success or true <= tol * (1 + 1e-7) + 1e-9 * (1 + g0), "%s: gap at the solution %r, tol %r", what, true, tol)
    for g in gaps[:-1]:
        ensure(g > tol * (1 - 1e-9) - 1e-13 * (1 + g0), "%s: went on although the gap %r was below tol %r", what, g, tol)
    t.hit(n > 3, s["kind"] + " " + step)
    t.label(case["loss"], "inside" if len(case["x0"]) > 1 else "vertex", "stopped" if stopped else "")


def refs_gap(ref, s, x):
    g = ref.grad(x)
    return fw.support(s, -g) + g @ x


SUBS = [
    Sub("history", case(), check, 900, rule="more than three iterations were needed"),
    Sub("own", own_case(), check, 300, rule="as history"),
    Sub("rest", rest_case(), check, 300, rule="as history"),
    Sub("long", long_case(), check, 40, rule="as history"),
    Sub("large", gens.large(case()), check, 150, rule="as history"),
]
