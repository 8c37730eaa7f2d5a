"""Glue between cases and the solvers: budgets, wrappers, common result checks."""
import numpy as np

from . import gens, refs
from .core import Budget, Violation, arr, ensure, num


class Smooth:
    """copt loss of a case (times its `fscale`, its variables divided by its
    `xscale`) behind a counter, in the calling conventions of copt"""

    def __init__(self, case, fmt="dense", limit=400000, what="solver", own=False):
        self.loss = _Own(case) if own or case["loss"] in gens.OWN else gens.build_loss(case, fmt)
        self.ref = refs.Loss(case, np.float64)
        self.scale = case.get("fscale", 1.0)
        self.k = case.get("xscale", 1.0)
        self.L = gens.lipschitz_of(case) * self.scale * self.k ** 2
        self.mu = gens.alpha_of(case) * self.scale * self.k ** 2
        self.d = case["d"]
        self.budget = Budget(limit, what)

    def f_grad(self, x, return_gradient=True):
        self.budget.tick()
        if self.scale == 1 and self.k == 1:
            return self.loss.f_grad(x, return_gradient=return_gradient)
        out = self.loss.f_grad(self.k * x, return_gradient=return_gradient)
        return (self.scale * out[0], self.scale * self.k * out[1]) if return_gradient else self.scale * out

    def fun(self, x, *args):
        self.budget.tick()
        return self.scale * self.loss.f_grad(x, return_gradient=False)

    def jac(self, x, *args):
        self.budget.tick()
        return self.scale * self.loss.f_grad(x)[1]


class _Own:
    """the loss computed by the harness, for checks about the solver alone"""

    def __init__(self, case):
        self.r = refs.Loss(case, np.float64)

    def f_grad(self, x, return_gradient=True):
        x = np.asarray(x, dtype=float)
        if return_gradient:
            return self.r.value(x), self.r.grad(x)
        return self.r.value(x)


class Prox:
    """proximal operator behind a counter; `own` uses the harness' operator"""

    def __init__(self, pen, limit=400000, own=False, scale=1.0, k=1.0):
        self.pen = pen
        self.scale, self.k = scale, k
        self.op = (lambda x, t: refs.prox(pen, x, t)) if own else gens.prox_of(pen)
        self.budget = Budget(limit, "prox")
        self.steps = []

    def __call__(self, x, step, *args):
        self.budget.tick()
        if not np.all(np.isfinite(x)):
            Prox.diverged = True
        if self.op is None:
            return x
        if self.k == 1:
            return self.op(x, step * self.scale)
        return self.op(self.k * x, step * self.scale * self.k ** 2) / self.k

    def or_none(self):
        return None if self.pen["kind"] == "none" else self


def unless_diverged(run):
    """result of a run that is allowed to diverge; None if it raised for that"""
    Prox.diverged = False
    try:
        return run()
    except Violation:
        raise
    except Exception:
        if not Prox.diverged:
            raise
        return None


def start(draw_vec, d):
    return np.array(draw_vec, dtype=float)


def solution(res, shape, what="solver"):
    ensure(hasattr(res, "x"), "%s returned %r", what, type(res))
    return arr(res.x, shape, "solution")


def check_minimizer(case, pen, x, tol_x, what, xs=None):
    """x is within tol_x of the unique minimizer, and its value accordingly"""
    if xs is None:
        xs = refs.solve(case, pen)
    err = np.linalg.norm(x - xs)
    ensure(err <= tol_x, "%s: %s is %g away from the minimizer %s (tolerance %g)", what,
           x.tolist(), err, xs.tolist(), tol_x)
    return xs
