"""Solvers which can solve the same problem agree on its solution."""
import numpy as np
from hypothesis import strategies as st
from scipy import sparse

from .. import solvers
from ..core import Sub, ensure

RULE = ("the problems of the example gallery (lasso, sparse logistic regression, overlapping groups, fused lasso, total variation "
        "deblurring, sparse and low-rank matrices, matrix completion, l1 and trace-norm balls) on random data of up to 60 samples and "
        "49 features, solved by every method that applies, called as in the examples.")
PROBLEMS = ["l1", "group", "overlapping", "fused", "tv2d", "sparse low-rank", "trace norm", "l1 ball", "trace ball", "simplex",
            "box", "smooth"]


@st.composite
def case(draw):
    return {"problem": draw(st.sampled_from(PROBLEMS)), "loss": draw(st.sampled_from(["log", "square", "huber"])),
            "n": draw(st.integers(2, 60)), "shape": [draw(st.integers(2, 7)), draw(st.integers(2, 7))],
            "sparse": draw(st.booleans()), "identity": draw(st.integers(0, 3)) == 0, "ratio": draw(st.sampled_from([0.1, 0.3, 1.0])),
            "lam": draw(st.sampled_from([0.01, 0.05, 0.2, 0.5])), "scale": draw(st.sampled_from([0.1, 1.0, 1.0, 10.0])),
            "seed": draw(st.integers(0, 10 ** 6))}


class Problem:
    def __init__(self, case):
        import copt
        rng = np.random.RandomState(case["seed"])
        self.rows, self.cols = case["shape"]
        n, d = case["n"], self.rows * self.cols
        A = rng.randn(n, d)
        if case["identity"]:
            n, A = d, np.diag(1 + rng.rand(d))
        elif case["sparse"]:
            A *= rng.rand(n, d) < 0.4
        A += 0.01 * (np.arange(n)[:, None] % d == np.arange(d)[None])
        A *= case["scale"] / np.sqrt(np.mean((A * A).sum(1)))
        truth = rng.randn(d) * (rng.rand(d) < 0.4) / case["scale"]
        p = A @ truth
        b = (p + 0.3 * rng.randn(n) > 0) * 1.0 if case["loss"] == "log" else p + 0.3 * rng.randn(n)
        self.n, self.d, self.dense, self.b, self.rng = n, d, A, b, rng
        self.A = sparse.csr_matrix(A) if case["sparse"] else A
        h = 0.25 if case["loss"] == "log" else 1.0
        self.curvature = h * np.linalg.norm(A, 2) ** 2 / n
        self.alpha = case["ratio"] * self.curvature
        kind = {"log": copt.loss.LogLoss, "square": copt.loss.SquareLoss, "huber": copt.loss.HuberLoss}[case["loss"]]
        self.f = kind(self.A, b, self.alpha)
        self.L = self.curvature + self.alpha
        # what it takes to move from zero
        self.g0 = np.abs(self.f.f_grad(np.zeros(d))[1])
        self.lam = case["lam"] * self.g0.max()
        self.far = np.linalg.norm(self.g0) / self.alpha
        self.radius = (0.1 + case["lam"]) * self.g0.sum() / self.L
        rows = (A * A).sum(1)
        weight = n / max(1, np.count_nonzero(A, axis=0).min())
        self.step = 1.0 / (3 * (h * rows.max() + self.alpha * weight))
        self.deriv = None if case["loss"] == "huber" else self.f.partial_deriv


def terms(case, p):
    """(first, second) terms, whole term or None, set or None, sparse proxes (two lists) or None"""
    import copt
    k, lam, shape = case["problem"], p.lam, (p.rows, p.cols)
    pen, con = copt.penalty, copt.constraint
    if k == "smooth":
        return None, None, "none", None, (None, None)
    if k == "l1":
        g = pen.L1Norm(lam)
        return g, None, g, None, (g.prox_factory(p.d), None)
    if k == "group":
        cuts = sorted({0, p.d} | set(p.rng.randint(1, p.d, 4).tolist()))
        g = pen.GroupL1(2 * lam, [np.arange(u, w) for u, w in zip(cuts, cuts[1:])])
        return g, None, g, None, (g.prox_factory(p.d), None)
    if k == "overlapping":
        groups = [np.arange(i, min(i + 4, p.d)) for i in range(0, p.d, 3)]
        g, h = pen.GroupL1(lam, groups[::2]), pen.GroupL1(lam, groups[1::2])
        return g, h, None, None, (g.prox_factory(p.d), h.prox_factory(p.d))
    if k == "fused":
        g = pen.FusedLasso(lam)
        return g, None, g, None, (g.prox_1_factory(p.d), g.prox_2_factory(p.d))
    if k == "tv2d":
        from copt import tv_prox
        g = pen.TotalVariation2D(lam, shape, max_iter=3000, tol=1e-9 * p.far)

        class Cols:
            def prox(self, x, s):
                return tv_prox.prox_tv1d_cols(s * lam, x, p.rows, p.cols)

        class Rows:
            def prox(self, x, s):
                return tv_prox.prox_tv1d_rows(s * lam, x, p.rows, p.cols)
        return Cols(), Rows(), g, None, None
    if k == "sparse low-rank":
        return pen.L1Norm(0.3 * lam), pen.TraceNorm(lam, shape), None, None, None
    if k == "trace norm":
        g = pen.TraceNorm(2 * lam, shape)
        return None, g, g, None, None
    c = {"l1 ball": lambda: con.L1Ball(p.radius), "trace ball": lambda: con.TraceBall(p.radius, shape),
         "simplex": lambda: con.SimplexConstraint(p.radius), "box": lambda: con.LinfBall(p.radius / p.d)}[k]()
    return c, None, c, c if k != "box" else None, None


def check(case, t):
    import copt
    p = Problem(case)
    first, second, whole, ball, factories = terms(case, p)
    f, d, L, got, slow = p.f, p.d, p.L, {}, []
    # distances below this are not told apart
    unit = p.far
    tol = 1e-7 * p.alpha * unit
    x0 = np.zeros(d)
    if case["problem"] == "simplex":
        x0[0] = p.radius

    def prox(g):
        return None if g is None or g == "none" else g.prox

    def keep(name, res, error=3e-5):
        x = solvers.solution(res, (d,))
        if res.success:
            got[name] = (x, error * unit)
        else:
            slow.append(name)
    if whole is not None:
        for name, kw in (("proximal gradient", {}), ("accelerated proximal gradient", {"accelerated": True}),
                         ("proximal gradient, 1/L", {"step": lambda dl: 1.0 / L})):
            keep(name, copt.minimize_proximal_gradient(f.f_grad, x0, prox(whole), jac=True, tol=30 * tol, max_iter=600, **kw))
    for name, kw in (("three splitting", {"step_size": 5.0 / L}), ("three splitting, 1/L", {"step_size": 1.0 / L, "line_search": False}),
                     ("three splitting, swapped", {"step_size": 1.0 / L})):
        a, b = (second, first) if "swapped" in name else (first, second)
        keep(name, copt.minimize_three_split(f.f_grad, x0, prox(a), prox(b), tol=tol, max_iter=1500, **kw))
    for name, kw in (("primal-dual", {"step_size": 1.0 / L, "step_size2": 0.5 * L}),
                     ("primal-dual, fixed", {"step_size": 0.9 / (0.5 * L + 0.5 * L), "step_size2": 0.5 * L, "line_search": False})):
        keep(name, copt.minimize_primal_dual(f.f_grad, x0, prox(first), prox(second), tol=1e-8 * min(unit, p.alpha * unit),
                                             max_iter=2500, **kw))
    if case["problem"] == "tv2d":
        D = copt.tv_prox.tv2d_linear_operator(p.rows, p.cols)
        keep("primal-dual, differences", copt.minimize_primal_dual(
            f.f_grad, x0, None, copt.penalty.L1Norm(p.lam).prox, L=sparse.csr_matrix(D), step_size=0.9 / (0.5 * L + 0.125 * L * 8),
            step_size2=0.125 * L, line_search=False, tol=1e-8 * min(unit, p.alpha * unit), max_iter=4000))
    if factories is not None and p.deriv is not None:
        if factories[1] is None:
            for name, solver in (("SAGA", copt.minimize_saga), ("SVRG", copt.minimize_svrg)):
                keep(name, solver(p.deriv, p.A, p.b, x0, p.step, alpha=p.alpha, prox=factories[0], tol=1e-9 * unit, max_iter=300), 1e-3)
        keep("VRTOS", copt.minimize_vrtos(p.deriv, p.A, p.b, x0, p.step, alpha=p.alpha, prox_1=factories[0], prox_2=factories[1],
                                          tol=1e-9 * unit, max_iter=300), 1e-3)
    if ball is not None:
        start = ball.lmo(-f.f_grad(x0)[1], x0, None)[0] + x0
        runs = [("Frank-Wolfe", ball.lmo, {}), ("Frank-Wolfe, DR", ball.lmo, {"step": "DR", "lipschitz": L})]
        if case["problem"] == "l1 ball":
            j = int(np.argmax(np.abs(start)))
            runs.append(("pairwise Frank-Wolfe", ball.lmo_pairwise, {"variant": "pairwise", "x0_rep": (float(np.sign(start[j])), j),
                                                                     "step": "DR", "lipschitz": L}))
        for name, lmo, kw in runs:
            res = copt.minimize_frank_wolfe(f.f_grad, start, lmo, jac=True, tol=0, max_iter=300, **kw)
            # the gap bounds the suboptimality, which bounds the distance
            gap = max(float(res.certificate), 0.0)
            got[name] = (solvers.solution(res, (d,)), np.sqrt(2 * gap / p.alpha) + 1e-5 * unit)
    names = sorted(got, key=lambda m: got[m][1])
    for i, m in enumerate(names):
        for q in names[:i]:
            dist = np.linalg.norm(got[m][0] - got[q][0])
            ensure(dist <= got[m][1] + got[q][1], "%s: %s and %s end %g apart (%g allowed)", case["problem"], q, m, dist,
                   got[m][1] + got[q][1])
    t.hit(len(got) > 2 and np.linalg.norm(got[names[0]][0] - x0) > 1e-3 * unit, case["problem"])
    # how fast each method must be is decided under C11 and C12
    t.label(case["loss"], *["slow: " + m for m in slow])


SUBS = [
    Sub("agree", case(), check, 240, thorough=4000, rule="three or more methods converged to a point that is not the start"),
]
