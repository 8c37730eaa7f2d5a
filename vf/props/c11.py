"""Three-operator splitting reaches the minimizer of a sum of three terms."""
import numpy as np
from hypothesis import strategies as st

from .. import gens, refs, solvers
from ..core import Budget, Sub, Reject, arr, ensure, num

RULE = ("losses with ridge, every pair of penalties and constraints with a common domain, fixed "
        "and searched steps, line-search parameters, Lipschitz constant of the second term given "
        "or not, extra arguments of the proximal operators, one or both operators omitted.")


@st.composite
def pair(draw, d, exact=gens.EXACT):
    """two terms whose domains intersect (every ball contains the origin)"""
    p1 = draw(gens.penalty_case(d, exact))
    second = [k for k in exact if p1["kind"] != "simplex" or k in gens.PENALTIES]
    p2 = draw(gens.penalty_case(d, second))
    if p2["kind"] == "simplex" and p1["kind"] not in gens.PENALTIES:
        p2 = {"kind": "l1", "lam": 0.1}
    return [p1, p2]


@st.composite
def case(draw):
    c = draw(gens.loss_case(n_max=6, d_max=5))
    c["ratio"] = draw(st.sampled_from([0.05, 0.1, 0.3, 1.0]))
    c["pens"] = draw(pair(c["d"]))
    c["x0"] = draw(st.one_of(st.just([0.0] * c["d"]), gens.vec(c["d"])))
    c["mode"] = draw(st.sampled_from(["default", "default", "fixed", "start", "start_nols"]))
    c["hlip"] = draw(st.booleans())
    c["factor"] = draw(st.sampled_from([None, 0.5, 0.9]))
    c["args"] = draw(st.booleans())
    c["s"] = draw(st.sampled_from([0.1, 1.0, 10.0]))
    return c


def lip_of(p, d):
    """Lipschitz constant of a penalty, None for constraints"""
    k = p["kind"]
    if k == "none":
        return 0.0
    if k == "l1":
        return p["lam"] * np.sqrt(d)
    if k == "group":
        return p["lam"] * np.sqrt(len(p["groups"]))
    if k == "fused":
        return 2 * p["lam"] * np.sqrt(d)
    if k == "tracenorm":
        return p["lam"] * np.sqrt(min(p["shape"]))
    return None


def run(case, callback=None, tol=None, max_iter=30000, x0=None, own=False, **kw):
    from copt import minimize_three_split
    f = solvers.Smooth(case, what="three operator splitting", limit=4000000, own=own)
    g = [solvers.Prox(p, limit=4000000, scale=f.scale, k=f.k) for p in case["pens"]]
    if case["mode"] == "fixed":
        kw.update(step_size=1.0 / f.L, line_search=False)
    elif case["mode"] == "start":
        kw.update(step_size=case["s"] / f.L)
    elif case["mode"] == "start_nols":
        kw.update(line_search=False)      # ignored without a step size
    if case["hlip"] and case["mode"] != "fixed":
        lip = lip_of(case["pens"][1], case["d"])
        if lip is not None:
            kw["h_Lipschitz"] = lip * f.scale * f.k
    if case["factor"] is not None:
        kw["backtracking_factor"] = case["factor"]
    p1, p2 = g[0].or_none(), g[1].or_none()
    if case["args"]:
        token = object()
        kw["args_prox"] = (token, 3)

        def with_args(p):
            def prox(x, s, *args):
                ensure(len(args) == 2 and args[0] is token and args[1] == 3,
                       "extra prox arguments arrive as %r", args)
                return p(x, s)
            return prox
        p1, p2 = p1 and with_args(p1), p2 and with_args(p2)
    if tol is None:
        tol = 1e-8 * f.L / f.k
    res = minimize_three_split(f.f_grad, (np.array(case["x0"], dtype=float) if x0 is None else x0) / f.k, p1, p2,
                               tol=tol, max_iter=max_iter, callback=callback, **kw)
    return res, f, tol


def check(case, t):
    res, f, tol = run(case)
    x = solvers.solution(res, (case["d"],)) * f.k
    what = "three operator splitting (%s)" % case["mode"]
    ensure(bool(res.success), "%s did not converge in 30000 iterations (certificate %r)", what, res.certificate)
    xs, z, r = refs.solve_sum(case, case["pens"])
    if r > 1e-9:
        raise Reject("the reference solver did not converge")
    s = 1 + np.abs(xs).max()
    solvers.check_minimizer(case, None, x, 1e-4 * s, what, xs)
    for i, p in enumerate(case["pens"]):
        bad = refs.infeasibility(p, x)
        ensure(bad <= (1e-8, 1e-4)[i] * s, "%s: solution outside of %s by %g", what, p, bad)
    t.hit(res.nit > 3, "+".join(sorted(p["kind"] for p in case["pens"])))
    t.label(case["mode"], case["loss"], "lipschitz" if case["hlip"] and case["mode"] != "fixed" and
            lip_of(case["pens"][1], case["d"]) is not None else "", "args" if case["args"] else "")


@st.composite
def limited_case(draw):
    c = draw(case())
    c["mode"] = draw(st.sampled_from(["default", "start"]))
    c["limit"] = draw(st.sampled_from([1, 1, 2, 3, 5]))
    return c


def check_limited(case, t):
    """a line search cut short may be slow or fail, but success stays true"""
    out = solvers.unless_diverged(lambda: run(case, max_iter=1500, max_iter_backtracking=case["limit"]))
    if out is None:
        t.label("diverged")
        return
    res, f, tol = out
    if res.success:
        x = solvers.solution(res, (case["d"],))
        xs, z, r = refs.solve_sum(case, case["pens"])
        if r > 1e-9:
            raise Reject("the reference solver did not converge")
        solvers.check_minimizer(case, None, x, 1e-4 * (1 + np.abs(xs).max()), "three operator splitting, %d line-search "
                                "iterations" % case["limit"], xs)
        t.hit(res.nit > 3, "+".join(sorted(p["kind"] for p in case["pens"])))
    t.label("success" if res.success else "failure")


@st.composite
def scaled_case(draw):
    c = draw(case())
    c["fscale"] = draw(st.sampled_from([1e-6, 1e-3, 30.0, 1e3, 1e6]))
    if c["fscale"] < 1 and c["mode"] not in ("fixed", "start"):
        # the first estimate of the Lipschitz constant is at least 1e-3
        c["mode"] = "start"
    return c


@st.composite
def units_case(draw):
    c = draw(case())
    c["mode"] = draw(st.sampled_from(["fixed", "start", "start"]))
    c["fscale"] = draw(st.sampled_from([1.0, 1e-3, 1e3]))
    # the line search stops at increments of 1e-7, in the user's units
    c["xscale"] = draw(st.sampled_from([30.0, 100.0, 1e3] + ([1e-6, 1e-3] if c["mode"] == "fixed" else [])))
    return c


@st.composite
def own_case(draw):
    c = draw(gens.own_case(case()))
    if c["mode"] == "fixed":
        c["mode"] = "start"
    return c


# ------------------------------------------------------- no curvature at all

def linear_terms(draw, cols):
    """a bounded set and a term that may act on M x"""
    radius = st.sampled_from([0.5, 1.0, 3.0])
    kind = draw(st.sampled_from(["l1", "l1", "l1ball"]))
    first = {"kind": "l1ball" if kind == "l1ball" else draw(st.sampled_from(["l1ball", "simplex"])), "radius": draw(radius)}
    if kind == "l1":
        return [first, {"kind": "l1", "lam": draw(st.sampled_from([0.1, 0.5, 1.0, 3.0]))}]
    return [first, {"kind": "l1ball", "radius": draw(st.sampled_from([0.1, 0.5, 1.0, 3.0]))}]


@st.composite
def linear_case(draw):
    d = draw(st.integers(1, 6))
    c = {"d": d, "c": draw(st.lists(st.integers(-3, 3).map(float), min_size=d, max_size=d)),
         "scale": draw(st.sampled_from([0.1, 1.0])), "pens": linear_terms(draw, d),
         "x0": draw(st.one_of(st.just([0.0] * d), gens.vec(d))), "s": draw(st.sampled_from([0.1, 1.0, 5.0])),
         "search": draw(st.booleans()), "swap": draw(st.booleans())}
    if draw(st.booleans()) and c["pens"][1]["kind"] == "l1":
        c["pens"][1] = {"kind": "fused", "lam": c["pens"][1]["lam"]}
    return c


class Linear:
    """f(x) = <c, x>"""

    def __init__(self, c, limit):
        self.c, self.budget = np.asarray(c, dtype=float), Budget(limit, "solver")

    def f_grad(self, x, return_gradient=True):
        self.budget.tick()
        v = float(self.c @ x)
        return (v, self.c.copy()) if return_gradient else v


def linear_error(c, g, M, h, x, what):
    """distance of x to optimality, relative to the scale of the problem"""
    M = np.asarray(M)
    best = refs.linear_program(c, g, M, h)
    if best is None:
        raise Reject("the linear program was not solved")
    lam = h["lam"] if h["kind"] == "l1" else 0.0
    value = c @ x + lam * np.abs(M @ x).sum()
    ensure(refs.infeasibility(g, x) <= 1e-8 * g["radius"], "%s: solution outside of %s", what, g)
    scale = (np.abs(c).max() + lam * np.abs(M).max() + 1) * g["radius"]
    return max(abs(value - best) / scale, refs.infeasibility(h, M @ x) / h["radius"] if h["kind"] == "l1ball" else 0.0)


def check_linear(case, t):
    """a linear objective: nothing but the splitting makes the method converge"""
    from copt import minimize_three_split
    d = case["d"]
    c = np.array(case["c"]) * case["scale"]
    f = Linear(c, 200000)
    g, h = case["pens"]
    M, hl = np.eye(d), h
    if h["kind"] == "fused":
        M, hl = np.diff(np.eye(d), axis=0), {"kind": "l1", "lam": h["lam"]}
        if d == 1:
            M = np.zeros((1, 1))
    prox = [solvers.Prox(g, 200000), solvers.Prox(h, 200000)]
    swap = case["swap"] and h["kind"] != "l1ball"
    if swap:
        prox.reverse()
    res = minimize_three_split(f.f_grad, np.array(case["x0"]), *prox, step_size=case["s"], line_search=case["search"],
                               tol=1e-8, max_iter=20000)
    x = solvers.solution(res, (d,))
    if swap:
        # the set acts in the second step: the solution is feasible in the limit
        bad = refs.infeasibility(g, x)
        ensure(bad <= (1e-5 if res.success else 1e-2) * g["radius"], "solution outside of %s by %g", g, bad)
        x = refs.prox(g, x, 1.0)
    err = linear_error(c, g, M, hl, x, "three operator splitting")
    ensure(err <= (1e-4 if res.success else 2e-2), "three operator splitting of a linear program, %s after %d iterations: "
           "%s is off by %g", "success" if res.success else "no success", res.nit, x.tolist(), err)
    t.hit(res.nit > 3, "+".join(sorted(p["kind"] for p in case["pens"])))
    t.label("slow" if not res.success else "")


# ---------------------------------------------- a first step that does not move

@st.composite
def trap_case(draw):
    c = draw(case())
    c["pens"][1] = {"kind": "l1", "lam": draw(st.sampled_from([0.1, 0.3, 1.0]))}
    c["signs"] = draw(st.lists(st.sampled_from([-1.0, 1.0, 0.5, 0.0]), min_size=c["d"], max_size=c["d"]))
    c["mode"], c["s"] = "fixed", 1.0
    return c


def check_trap(case, t):
    """a start from which the first step stays at the minimizer of two of the
    three terms: the dual variable has not moved yet"""
    half = refs.solve_sum(case, [case["pens"][0], {"kind": "none"}])
    if half[2] > 1e-9:
        raise Reject("the reference solver did not converge")
    lam, xm = case["pens"][1]["lam"], half[0]
    xm = np.where(np.abs(xm) < 1e-8, 0.0, xm)
    L = gens.lipschitz_of(case)
    x0 = xm + lam / L * np.where(xm != 0, np.sign(xm), case["signs"])
    res, f, tol = run(case, x0=x0, tol=1e-6 * L)
    ensure(bool(res.success), "three operator splitting did not converge (certificate %r)", res.certificate)
    xs, z, r = refs.solve_sum(case, case["pens"])
    if r > 1e-9:
        raise Reject("the reference solver did not converge")
    solvers.check_minimizer(case, None, solvers.solution(res, (case["d"],)), 2e-3 * (1 + np.abs(xs).max()),
                            "three operator splitting from a start that hides the second term", xs)
    t.hit(np.linalg.norm(xm - xs) > 2e-3 * (1 + np.abs(xs).max()), case["pens"][0]["kind"])


SUBS = [
    Sub("converges", case(), check, 1500, thorough=20000, rule="more than three iterations were needed"),
    Sub("large", gens.large(case()), check, 100, thorough=2000, rule="as converges"),
    Sub("scaled", scaled_case(), check, 300, rule="as converges"),
    Sub("units", units_case(), check, 300, rule="as converges"),
    Sub("own", own_case(), check, 300, rule="as converges"),
    Sub("linear", linear_case(), check_linear, 400, rule="more than three iterations were needed"),
    Sub("trap", trap_case(), check_trap, 300, rule="the start is far from the minimizer of the whole sum"),
    Sub("limited", limited_case(), check_limited, 300, rule="success after more than three iterations"),
]
