"""The primal-dual method reaches the minimizer of f + g + h(L .)."""
import numpy as np
from hypothesis import strategies as st
from scipy import sparse
from scipy.sparse.linalg import aslinearoperator, LinearOperator

from .. import gens, refs, solvers
from ..core import Sub, Reject, arr, ensure
from . import c11

RULE = ("as for three-operator splitting, with identity, scaled, rectangular, difference and "
        "integer operators L given as arrays, matrices in sparse formats and LinearOperators; line "
        "search and fixed admissible steps.")


@st.composite
def case(draw):
    c = draw(gens.loss_case(n_max=6, d_max=5))
    c["ratio"] = draw(st.sampled_from([0.1, 0.3, 1.0]))
    d = c["d"]
    op = draw(st.sampled_from(["none", "identity", "scaled", "random", "diff", "integer", "range"]))
    if op == "diff" and d == 1:
        op = "scaled"
    if op in ("none", "identity"):
        M = np.eye(d).tolist()
    elif op == "scaled":
        M = (np.eye(d) * draw(st.sampled_from([0.2, 0.5, 2.0, 5.0]))).tolist()
    elif op == "diff":
        M = np.diff(np.eye(d), axis=0).tolist()
    elif op == "range":
        lo = draw(st.integers(0, d - 1))
        M = np.eye(d)[lo:draw(st.integers(lo + 1, d))].tolist()
    elif op == "integer":
        m = draw(st.integers(1, 4))
        M = draw(st.lists(st.lists(st.integers(-2, 2).map(float), min_size=d, max_size=d), min_size=m, max_size=m))
    else:
        m = draw(st.integers(1, 6))
        M = draw(gens.matrix(m, d, zero_cols=True))
    c["op"], c["M"] = op, M
    m = len(M)
    c["pens"] = draw(c11.pair(d)) if m == d else [
        draw(gens.penalty_case(d, [k for k in gens.EXACT if k != "simplex"])),
        draw(gens.penalty_case(m, [k for k in gens.EXACT if k != "simplex"]))]
    if op not in ("none", "identity"):
        # the origin must be in both domains
        for i, dim in ((0, d), (1, m)):
            if c["pens"][i]["kind"] == "simplex":
                c["pens"][i] = {"kind": "l1ball", "radius": c["pens"][i]["radius"]}
    c["fmt"] = draw(st.sampled_from(["dense", "csr", "csc", "coo", "linop", "custom", "matrix", "lil", "dia",
                                      "view", "view"]))
    c["x0"] = draw(st.one_of(st.just([0.0] * d), gens.vec(d)))
    if op in ("none", "identity") and draw(st.integers(0, 3)) == 0:
        # the primal iterate stays at the origin while the dual one builds up
        c["pens"] = [{"kind": "l1", "lam": draw(st.sampled_from([1.0, 3.0, 5.0]))},
                     {"kind": "simplex", "radius": draw(st.sampled_from([0.5, 1.0, 2.0]))}]
        c["x0"] = [0.0] * d
    c["mode"] = draw(st.sampled_from(["default", "default", "steps", "fixed"]))
    c["s"] = draw(st.sampled_from([0.1, 1.0, 5.0]))
    c["r"] = draw(st.sampled_from([0.2, 0.5, 1.0, 2.0]))
    return c


MAX_ITER = 20000


class Custom:
    """an object with .shape and .matvec attributes"""

    def __init__(self, M):
        self.M, self.shape, self.dtype = M, M.shape, M.dtype

    def matvec(self, x):
        return self.M.dot(x)

    def rmatvec(self, x):
        return self.M.T.dot(x)


class Select(LinearOperator):
    """entries lo to hi"""

    def __init__(self, lo, hi, d):
        self.lo, self.hi = lo, hi
        super().__init__(float, (hi - lo, d))

    def _matvec(self, x):
        return x if self.hi - self.lo == self.shape[1] else x[self.lo:self.hi]

    def _rmatvec(self, y):
        if self.hi - self.lo == self.shape[1]:
            return y
        out = np.zeros(self.shape[1])
        out[self.lo:self.hi] = y.ravel()
        return out


def operator(case):
    M = np.array(case["M"])
    if case["op"] == "none":
        return None
    if case["op"] == "integer" and case["fmt"] in ("dense", "csr"):
        M = M.astype(int)
    if case["fmt"] == "view":
        # an operator that selects a range of the entries can return a view of its argument
        one = np.flatnonzero(M.sum(0))
        if case["op"] == "identity" or len(M) == len(one) and np.array_equal(M, np.eye(M.shape[1])[one[0]:one[-1] + 1]):
            return Select(one[0], one[-1] + 1, M.shape[1])
    if case["fmt"] in ("linop", "view"):
        return aslinearoperator(M)
    if case["fmt"] == "custom":
        return Custom(M)
    if case["fmt"] == "matrix":
        return np.matrix(M)
    return gens.to_format(M, case["fmt"], M.dtype)


def run(case, callback=None, tol=None, max_iter=MAX_ITER, x0=None, own=False):
    from copt import minimize_primal_dual
    f = solvers.Smooth(case, what="primal-dual", limit=6000000, own=own)
    p1, p2 = (solvers.Prox(p, limit=6000000, scale=f.scale, k=f.k) for p in case["pens"])
    kw = {}
    nM = np.linalg.norm(np.array(case["M"]), 2)
    if case["mode"] == "steps":
        unit = f.scale * f.k ** 2
        kw.update(step_size=case["s"] / unit, step_size2=case["s"] * case["r"] * unit)
    elif case["mode"] == "fixed":
        # Condat's condition 1/sigma - tau |L|^2 >= L_f / 2, with margin
        tau = case["r"] / max(nM, 0.1) * f.scale * f.k ** 2
        sigma = 0.9 / (0.5 * f.L + tau * nM ** 2)
        kw.update(step_size=sigma, step_size2=tau, line_search=False)
    if tol is None:
        tol = 1e-8 * min(1, f.scale * f.k, 1 / f.k)
    res = minimize_primal_dual(f.f_grad, (np.array(case["x0"], dtype=float) if x0 is None else x0) / f.k, p1.or_none(),
                               p2.or_none(), L=operator(case), tol=tol, max_iter=max_iter, callback=callback, **kw)
    return res, f, tol


def reference(case, iters=60000, tol=1e-9):
    """ADMM on f(x) + g(z) + h(w), z = x, w = M x, with exact Newton steps"""
    loss = refs.Loss(case, np.float64)
    M = np.array(case["M"])
    g, h = case["pens"]
    L, mu = gens.lipschitz_of(case), gens.alpha_of(case)
    d, m = loss.d, M.shape[0]
    rho = np.sqrt(L * mu)
    sM = max(np.linalg.norm(M, 2), 1e-3)
    rh = rho / sM ** 2
    Q = rho * np.eye(d) + rh * M.T @ M
    x = np.zeros(d)
    z, u, w, v = np.zeros(d), np.zeros(d), np.zeros(m), np.zeros(m)
    r = np.inf
    for _ in range(iters):
        c = rho * (z - u) + rh * M.T @ (w - v)
        for _ in range(60):
            grad = loss.grad(x) + Q @ x - c
            if np.max(np.abs(grad)) <= 1e-13 * (1 + rho):
                break
            dx = np.linalg.solve(loss.hessian(x) + Q, grad)
            phi0 = loss.value(x) + 0.5 * x @ Q @ x - c @ x
            s = 1.0
            while s > 1e-8:
                xn = x - s * dx
                if loss.value(xn) + 0.5 * xn @ Q @ xn - c @ xn <= phi0 - 1e-4 * s * grad @ dx + 1e-15 * (1 + abs(phi0)):
                    break
                s *= 0.5
            x = x - s * dx
        Mx = M @ x
        zn, wn = refs.prox(g, x + u, 1 / rho), refs.prox(h, Mx + v, 1 / rh)
        r = max(np.max(np.abs(zn - x)), np.max(np.abs(wn - Mx)), np.max(np.abs(zn - z)), np.max(np.abs(wn - w)))
        z, w = zn, wn
        u, v = u + x - z, v + Mx - w
        if r <= tol:
            break
    return x, r


def check(case, t):
    res, f, tol = run(case)
    x = solvers.solution(res, (case["d"],)) * f.k
    what = "primal-dual (%s, L=%s)" % (case["mode"], case["op"])
    if not res.success:
        # badly scaled operators converge slowly; they still converge.  The
        # increments of the dual variable are as large as the gradient
        steep = np.linalg.norm(refs.Loss(case, np.float64).grad(np.zeros(case["d"])))
        ensure(res.certificate <= max(1e-3, 3e-5 * steep) * max(1, f.scale * f.k), "%s did not converge in %d iterations (certificate %r)", what, MAX_ITER,
               res.certificate)
        t.label("slow")
        return
    xs, r = reference(case)
    if r > 1e-8:
        raise Reject("the reference solver did not converge")
    s = 1 + np.abs(xs).max()
    solvers.check_minimizer(case, None, x, 5e-4 * s, what, xs)
    Mx = np.array(case["M"]) @ x
    for i, (p, v) in enumerate(zip(case["pens"], (x, Mx))):
        bad = refs.infeasibility(p, v)
        ensure(bad <= (1e-8, 1e-3)[i] * (1 + np.abs(v).max()), "%s: solution outside of %s by %g", what, p, bad)
    t.hit(res.nit > 3, "+".join(sorted(p["kind"] for p in case["pens"])))
    t.label(case["mode"], case["op"], case["fmt"], case["loss"])


@st.composite
def scaled_case(draw):
    """other units of the objective, with steps to match"""
    c = draw(case())
    c["mode"] = draw(st.sampled_from(["steps", "fixed"]))
    c["fscale"] = draw(st.sampled_from([1e-3, 0.02, 30.0, 1e3]))
    return c


@st.composite
def units_case(draw):
    """other units of the variables; the dual variable starts at L x0"""
    c = draw(case())
    c["mode"] = draw(st.sampled_from(["steps", "fixed"]))
    c["fscale"] = draw(st.sampled_from([1.0, 0.02, 30.0]))
    c["xscale"] = draw(st.sampled_from([0.01, 0.1, 10.0, 1e3]))
    c["x0"] = [0.0] * c["d"]
    return c


@st.composite
def own_case(draw):
    c = draw(gens.own_case(case()))
    if c["mode"] == "fixed":
        c["mode"] = "steps"
    return c


@st.composite
def linear_case(draw):
    d, m = draw(st.integers(1, 5)), draw(st.integers(1, 4))
    return {"d": d, "c": draw(st.lists(st.integers(-3, 3).map(float), min_size=d, max_size=d)),
            "scale": draw(st.sampled_from([0.1, 1.0])), "pens": c11.linear_terms(draw, m),
            "M": draw(st.lists(st.lists(st.integers(-2, 2).map(float), min_size=d, max_size=d), min_size=m, max_size=m)),
            "x0": draw(st.one_of(st.just([0.0] * d), gens.vec(d))),
            "mode": draw(st.sampled_from(["search", "fixed"])), "s": draw(st.sampled_from([0.1, 1.0, 5.0])),
            "r": draw(st.sampled_from([0.5, 1.0, 2.0]))}


def check_linear(case, t):
    """a linear objective: only the interplay of both variables converges"""
    from copt import minimize_primal_dual
    d = case["d"]
    c, M = np.array(case["c"]) * case["scale"], np.array(case["M"])
    f = c11.Linear(c, 2000000)
    g, h = case["pens"]
    kw = {"step_size": case["s"], "step_size2": case["s"] * case["r"]}
    if case["mode"] == "fixed":
        nM = max(np.linalg.norm(M, 2), 0.1)
        kw = {"step_size": 0.9 * case["r"] / nM, "step_size2": 1 / (case["r"] * nM), "line_search": False}
    res = minimize_primal_dual(f.f_grad, np.array(case["x0"]), solvers.Prox(g, 2000000), solvers.Prox(h, 2000000), L=M,
                               tol=1e-9, max_iter=40000, **kw)
    x = solvers.solution(res, (d,))
    err = c11.linear_error(c, g, M, h, x, "the primal-dual method")
    ensure(err <= (2e-4 if res.success else 2e-2), "primal-dual method (%s) on a linear program, %s after %d iterations: %s "
           "is off by %g", case["mode"], "success" if res.success else "no success", res.nit, x.tolist(), err)
    t.hit(res.nit > 3, "+".join(sorted(p["kind"] for p in case["pens"])))
    t.label(case["mode"], "slow" if not res.success else "")


UNEQUAL = {"A": [[1.0]], "M": [[1.0]], "b": [0.0], "d": 1, "fmt": "dense", "fscale": 0.001, "loss": "log",
           "mode": "steps", "n": 1, "op": "none", "pens": [{"kind": "none"}, {"kind": "none"}], "r": 0.2, "ratio": 0.1,
           "s": 0.1, "x0": [0.0]}

SUBS = [
    Sub("converges", case(), check, 400, thorough=8000, rule="more than three iterations were needed"),
    Sub("scaled", scaled_case(), check, 200, rule="as converges", pinned=[UNEQUAL]),
    Sub("units", units_case(), check, 100, thorough=2000, rule="as converges"),
    Sub("own", own_case(), check, 100, thorough=2000, rule="as converges"),
    Sub("linear", linear_case(), check_linear, 300, rule="more than three iterations were needed"),
    Sub("large", gens.large(case(), 40, 16), check, 60, thorough=1200, rule="as converges"),
]
