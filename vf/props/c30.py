"""Objectives which are infinite outside of an open domain."""
import numpy as np
from hypothesis import strategies as st

from .. import fw, solvers
from ..core import Budget, Sub, arr, ensure, num

RULE = ("barriers (logarithms of coordinates, of a ball), entropies, square roots and log-determinants with linear and "
        "quadratic terms, plain or with l1 penalties and boxes, started well inside or close to the border of the domain.")
NUM = st.floats(-3, 3).map(lambda v: round(v, 2))


class Fun:
    """infinite (with a useless gradient) outside of the domain"""

    def __init__(self, case):
        self.kind, self.c = case["kind"], np.array(case["c"])
        self.alpha, self.d = case["alpha"], len(case["c"])
        self.w = np.array(case["w"])
        self.outside = 0
        self.budget = Budget(300000, "evaluations")
        if self.kind == "logdet":
            self.p = int(round(np.sqrt(self.d)))
            B = self.c.reshape(self.p, self.p)
            self.S = B @ B.T + 0.3 * np.eye(self.p)

    def inside(self, x):
        if self.kind in ("log", "entropy"):
            return bool(np.all(x > 0))
        if self.kind == "root":
            return bool(np.all(np.abs(x) <= 1))
        if self.kind == "ball":
            return x @ x < 1
        X = x.reshape(self.p, self.p)
        return bool(np.linalg.eigvalsh(0.5 * (X + X.T))[0] > 0)

    def value(self, x):
        q = 0.5 * self.alpha * (x @ x)
        if self.kind == "log":
            return float(q + self.c @ x - self.w @ np.log(x))
        if self.kind == "entropy":
            return float(q + self.c @ x + self.w @ (x * np.log(np.maximum(x, 1e-300))))
        if self.kind == "root":
            return float(q + self.c @ x - self.w @ np.sqrt(1 - x * x))
        if self.kind == "ball":
            return float(q + self.c @ x - self.w[0] * np.log(1 - x @ x))
        X = x.reshape(self.p, self.p)
        return float(q + np.sum(self.S * X) - np.linalg.slogdet(0.5 * (X + X.T))[1])

    def grad(self, x):
        q = self.alpha * x
        if self.kind == "log":
            return q + self.c - self.w / x
        if self.kind == "entropy":
            return q + self.c + self.w * (1 + np.log(np.maximum(x, 1e-300)))
        if self.kind == "root":
            return q + self.c + self.w * x / np.sqrt(np.maximum(1 - x * x, 1e-300))
        if self.kind == "ball":
            return q + self.c + 2 * self.w[0] * x / (1 - x @ x)
        X = x.reshape(self.p, self.p)
        return q + (self.S - np.linalg.inv(0.5 * (X + X.T))).ravel()

    def curvature(self, x):
        """largest eigenvalue of the Hessian"""
        if self.kind == "log":
            return self.alpha + np.max(self.w / x ** 2)
        if self.kind == "entropy":
            return self.alpha + np.max(self.w / np.maximum(x, 1e-9))
        if self.kind == "root":
            return self.alpha + np.max(self.w / np.maximum(1 - x * x, 1e-9) ** 1.5)
        if self.kind == "ball":
            s = 1 - x @ x
            return self.alpha + 2 * self.w[0] / s + 4 * self.w[0] * (x @ x) / s ** 2
        X = x.reshape(self.p, self.p)
        return self.alpha + np.linalg.eigvalsh(0.5 * (X + X.T))[0] ** -2.0

    def f_grad(self, x, return_gradient=True):
        self.budget.tick()
        x = np.asarray(x, dtype=float)
        if not self.inside(x):
            self.outside += 1
            return (np.inf, np.full(x.shape, np.nan)) if return_gradient else np.inf
        return (self.value(x), self.grad(x)) if return_gradient else self.value(x)


@st.composite
def case(draw, kinds=("log", "entropy", "root", "ball", "logdet")):
    kind = draw(st.sampled_from(list(kinds)))
    p = draw(st.integers(1, 3))
    d = p * p if kind == "logdet" else draw(st.integers(1, 6))
    c = {"kind": kind, "alpha": draw(st.sampled_from([0.1, 0.5, 2.0])), "c": draw(st.lists(NUM, min_size=d, max_size=d)),
         "w": draw(st.lists(st.sampled_from([0.1, 0.5, 1.0, 3.0]), min_size=d, max_size=d)),
         "lam": draw(st.sampled_from([0.0, 0.05, 0.3, 1.0]))}
    if kind in ("entropy", "root", "ball"):
        # moderate curvature at the solution
        c["w"] = [v + 1 for v in c["w"]]
    near = draw(st.sampled_from([0.5, 0.9, 0.99]))
    s = draw(st.lists(st.sampled_from([0.02, 0.3, 1.0, 4.0]), min_size=d, max_size=d))
    if kind in ("log", "entropy"):
        c["x0"] = s
    elif kind == "logdet":
        c["x0"] = np.diag(s[:p]).ravel().tolist()
    else:
        v = np.array(s) * np.where(np.arange(d) % 2, -1, 1)
        c["x0"] = (near * v / (np.linalg.norm(v) if kind == "ball" else np.abs(v).max())).tolist()
    c["solver"] = draw(st.sampled_from(["proximal gradient", "proximal gradient", "three splitting", "primal-dual"]))
    c["first"] = draw(st.booleans())
    c["factor"] = draw(st.sampled_from([0.6, 0.6, 0.3, 0.9]))
    return c


def soft(x, t):
    return np.sign(x) * np.maximum(np.abs(x) - t, 0)


def mapping(f, lam, x):
    """norm of the gradient mapping at the scale of the curvature"""
    L = 2 * f.curvature(x)
    return float(np.linalg.norm(x - soft(x - f.grad(x) / L, lam / L)) * L)


def check(case, t):
    import copt
    f, lam, s = Fun(case), case["lam"], case["solver"]
    x0 = np.array(case["x0"])
    pen = copt.penalty.L1Norm(lam).prox if lam else None
    # a bound on the curvature on the way
    start = float(np.linalg.norm(f.grad(x0)))
    tol = 1e-5 * (1 + min(start, 100.0))
    seen = []

    def callback(dl):
        seen.append(f.inside(arr(dl["x"], (f.d,), "iterate")))
    if s == "proximal gradient":
        res = copt.minimize_proximal_gradient(f.f_grad, x0, pen, jac=True, tol=tol, max_iter=20000,
                                              backtracking_factor=case["factor"], callback=callback)
    elif s == "three splitting":
        res = copt.minimize_three_split(f.f_grad, x0, pen, None, tol=tol, max_iter=20000, callback=callback)
    else:
        terms = (pen, None) if case["first"] else (None, pen)
        res = copt.minimize_primal_dual(f.f_grad, x0, *terms, tol=tol * 1e-2, max_iter=20000, callback=callback)
    x = solvers.solution(res, (f.d,), s)
    ensure(all(seen) and f.inside(x), "%s left the domain of the objective (%s)", s, case["kind"])
    t.label(s + " " + case["kind"], "" if res.success else s + " slow " + case["kind"])
    G = mapping(f, lam, x)
    t.label("%s 1e%d" % (s, np.ceil(np.log10(G / tol + 1e-9))))
    # the steps of three-operator splitting never grow again, those of the
    # primal-dual method follow the dual variable
    if s == "proximal gradient":
        ensure(bool(res.success), "%s did not converge in 20000 iterations on %s (certificate %r)", s, case["kind"], res.certificate)
    if res.success:
        # distances, for the primal-dual method
        ensure(G <= tol * (100 if s != "primal-dual" else max(100.0, 20 * f.curvature(x))), "%s: the gradient mapping is %g at the solution for %s, tolerance %g", s, G, case["kind"], tol)
    t.hit(f.outside > 0, s + " " + case["kind"])


@st.composite
def fw_case(draw):
    c = draw(case(("log", "entropy", "ball", "root")))
    d = len(c["c"])
    c["lip"] = draw(st.sampled_from([None, 1e-3, 0.03, 1.0]))
    c["variant"] = draw(st.sampled_from(["vanilla", "vanilla", "pairwise"]))
    if c["kind"] in ("log", "entropy"):
        c["set"] = {"kind": "simplex", "radius": draw(st.sampled_from([0.5, 1.0, 3.0]))}
        c["variant"] = "vanilla"
    else:
        # the first point is in the domain, others need not be
        pts = draw(st.lists(st.lists(st.integers(-3, 3).map(float), min_size=d, max_size=d), min_size=2, max_size=6, unique_by=tuple))
        pts = np.array(pts) * draw(st.sampled_from([0.3, 0.6, 1.0]))
        pts[0] *= 0.7 / max(np.linalg.norm(pts[0]), 0.7)
        c["set"] = {"kind": "hull", "points": pts.tolist()}
    return c


def check_fw(case, t):
    import copt
    f, s, d = Fun(case), case["set"], len(case["c"])
    pairwise = case["variant"] == "pairwise"
    x0 = np.full(d, s["radius"] / d) if "radius" in s else np.array(s["points"][0])
    g0 = f.grad(x0)
    gap0 = fw.support(s, -g0) + g0 @ x0
    tol = max(0.02 * gap0, 1e-4)
    rec = fw.Recorder(fw.build(s, pairwise, d))
    res = copt.minimize_frank_wolfe(f.f_grad, x0, rec, jac=True, tol=tol, max_iter=4000, lipschitz=case["lip"], variant=case["variant"],
                                    x0_rep=0 if pairwise else None)
    x = solvers.solution(res, (d,))
    what = "Frank-Wolfe (%s) on %s" % (case["variant"], case["kind"])
    for c in rec.calls:
        ensure(f.inside(c[1]), "%s left the domain of the objective", what)
    ensure(f.inside(x), "%s left the domain of the objective", what)
    vals = [f.value(c[1]) for c in rec.calls] + [f.value(x)]
    up = np.flatnonzero(np.diff(vals) > 1e-6 + 1e-9 * np.abs(vals[:-1]))
    ensure(not up.size, "%s: step %d increases the objective", what, *up[:1] if up.size else [0])
    cert = num(res.certificate)
    t.label("" if res.success else "slow " + case["kind"])
    g = f.grad(x)
    gap = fw.support(s, -g) + g @ x
    ensure(not res.success or gap <= tol * (1 + 1e-6) + 1e-9, "%s: success with gap %g, tolerance %g", what, gap, tol)
    ensure(bool(res.success), "%s: gap %g after 4000 iterations, tolerance %g", what, cert, tol)
    t.hit(len(rec.calls) > 2 and f.outside > 0, case["variant"] + " " + case["kind"])


SUBS = [
    Sub("splitting", case(), check, 500, thorough=8000, rule="trial points were outside of the domain"),
    Sub("frank_wolfe", fw_case(), check_fw, 400, thorough=6000, rule="trial points were outside of the domain"),
]
