"""Every way to give the objective and its gradient gives the same run."""
import warnings

import numpy as np
from hypothesis import strategies as st

from .. import fw, gens, refs, solvers, zoo
from ..core import Budget, Sub, arr, close, ensure, fail, num

RULE = ("proximal gradient, plain and accelerated, and Frank-Wolfe, plain and pairwise, with the gradient returned along "
        "with the value, given by another callable, or estimated, with and without extra arguments.")

EXACT = ["true", "callable", "default", "true-args", "callable-args", "default-args"]
ESTIMATED = ["2-point", "False", "None", "unset"]


class Objective:
    """the objective in every calling convention, with arguments checked"""

    def __init__(self, case, args):
        self.ref, self.args, self.n = refs.Loss(case, np.float64), args, Budget(400000, "solver")
        self.shape = (case["d"],)

    def look(self, x, args):
        self.n.tick()
        ensure(len(args) == len(self.args) and all(p is q for p, q in zip(args, self.args)),
               "extra arguments arrive as %r instead of %r", args, self.args)
        x = np.asarray(x)
        ensure(x.shape == self.shape and x.dtype == np.float64, "the objective is called with %r", x)
        return x

    def value(self, x, *args):
        return self.ref.value(self.look(x, args))

    def gradient(self, x, *args):
        return self.ref.grad(self.look(x, args))

    def both(self, x, *args):
        x = self.look(x, args)
        return self.ref.value(x), self.ref.grad(x)


def give(case, mode, **kw):
    args = ({"any": "object"}, 3, np.arange(2.0)) if mode.endswith("-args") or case["args"] and mode in ESTIMATED else ()
    o = Objective(case, args)
    if args or case["args"]:
        kw["args"] = args
    how = mode.split("-args")[0]
    if how == "true":
        return zoo.solve(case, fun=o.both, jac=True, **kw)
    if how == "callable":
        return zoo.solve(case, fun=o.value, jac=o.gradient, **kw)
    if how == "default":
        return zoo.solve(case, fun=o.both, jac="2-point", **kw)
    jac = {"2-point": "2-point", "False": False, "None": None, "unset": "2-point"}[how]
    return zoo.solve(case, fun=o.value, jac=jac, **kw)


@st.composite
def case(draw, names=("pgd", "apgd", "fw", "pfw")):
    c = draw(zoo.case(names=list(names)))
    c["args"] = draw(st.booleans())
    c["mode"] = draw(st.sampled_from(EXACT[1:]))
    c["iters"] = draw(st.integers(1, 40))
    return c


def trajectory(case, mode, **kw):
    seen = []
    res = give(case, mode, callback=lambda dl: seen.append(np.array(dl["x"])) and None, **kw)
    return seen, res


def check_exact(case, t):
    s, d = case["solver"], case["d"]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        one, p = trajectory(case, "true", tol=0.0, max_iter=case["iters"])
        two, q = trajectory(case, case["mode"], tol=0.0, max_iter=case["iters"])
    what = "%s with %s" % (s, case["mode"])
    ensure(p.nit == q.nit and len(one) == len(two), "%s: %d iterations, with jac=True %d", what, q.nit, p.nit)
    for k, (a, b) in enumerate(zip(one + [p.x], two + [q.x])):
        ensure(np.array_equal(arr(a, (d,)), arr(b, (d,))), "%s: iterate %d is %s, with jac=True %s", what, k, b.tolist(),
               a.tolist())
    t.hit(np.max(np.abs(np.asarray(p.x) - case["x0"])) > 1e-9, s)
    t.label(case["mode"])


@st.composite
def estimated_case(draw):
    c = draw(case())
    c["mode"] = draw(st.sampled_from(ESTIMATED))
    return c


def check_estimated(case, t):
    """the estimate is good to about 1e-7: so is the solution"""
    s, d = case["solver"], case["d"]
    L, mu = gens.lipschitz_of(case), gens.alpha_of(case)
    what = "%s with jac %s" % (s, case["mode"])
    ref = refs.Loss(case, np.float64)
    fworks = s in ("fw", "pfw")
    r = fw.radius(case["set"]) * np.sqrt(d) if fworks else 0
    scale = 1 + np.abs(np.array(case["b"])).max() ** 2 + L * (1 + r) ** 2
    if fworks and case["step"] == "callable":
        case = dict(case, step="sublinear")
    tol = 1e-3 * scale
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        q = give(case, case["mode"], tol=tol, max_iter=3000)
    x = solvers.solution(q, (d,), what)
    if fworks:
        if q.success:
            grad = ref.grad(x)
            gap = grad @ x + fw.support(case["set"], -grad)
            ensure(gap <= tol + 1e-4 * scale, "%s: stopped with a duality gap of %g, tolerance %g", what, gap, tol)
        else:
            t.label("slow")
    else:
        ensure(q.success, "%s: no success in 3000 iterations (certificate %r)", what, q.certificate)
        xs = refs.solve(case, case["pen"])
        bound = 8 * (tol + 1e-4 * scale) / mu
        err = np.linalg.norm(x - xs)
        ensure(err <= bound, "%s: %g away from the minimizer, tolerance allows %g", what, err, bound)
    t.hit(np.max(np.abs(x - case["x0"])) > 1e-6, s)
    t.label(case["mode"], "args" if case["args"] else "")


# ------------------------------------------------------------ step of the estimate

@st.composite
def eps_case(draw):
    c = draw(gens.loss_case(losses=("square",), n_max=5, d_max=4))
    c["ratio"] = draw(st.sampled_from([0.1, 0.3, 1.0]))
    d = c["d"]
    c["solver"] = draw(st.sampled_from(["pgd", "apgd", "fw"]))
    c["eps"] = draw(st.sampled_from([1e-3, 1e-2, 0.1]))
    c["per"] = draw(st.one_of(st.none(), st.lists(st.sampled_from([1.0, 2.0, 0.5]), min_size=d, max_size=d)))
    c["rng"] = 0
    c["step"] = "callable"
    if c["solver"] == "fw":
        c["set"] = {"kind": "hull", "points": draw(st.lists(st.lists(st.integers(-3, 3).map(float), min_size=d,
                                                                     max_size=d), min_size=2, max_size=4,
                                                            unique_by=tuple))}
        c["x0"] = c["set"]["points"][0]
    else:
        c["pen"] = draw(gens.penalty_case(d, ["none", "l1", "l2", "linf"]))
        c["x0"] = draw(gens.vec(d))
    c["iters"] = draw(st.integers(1, 6))
    return c


def check_eps(case, t):
    """the forward difference of a quadratic is its gradient plus eps/2 times
    the diagonal of its Hessian: the run is that of another quadratic"""
    ref = refs.Loss(case, np.float64)
    d = case["d"]
    eps = case["eps"] * (np.array(case["per"]) if case["per"] else 1.0)
    A = np.array(case["A"])
    shift = 0.5 * eps * (np.sum(A * A, axis=0) / len(A) + gens.alpha_of(case))
    kw = dict(tol=0.0, max_iter=case["iters"], eps=eps)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        q = zoo.solve(case, fun=ref.value, jac="2-point", **kw)
        p = zoo.solve(case, fun=ref.value, jac=lambda x: ref.grad(x) + shift, **kw)
    s = 1 + np.abs(np.array(p.x)).max() + np.abs(np.array(case["x0"])).max()
    L = gens.lipschitz_of(case)
    noise = 1e-13 * (np.abs(np.array(case["b"])).max() + np.abs(A).max() * s * d) ** 2 / case["eps"] / min(L, 1)
    if case["solver"] == "fw":
        # compare what the first answer of the oracle depends on

        def asked(jac):
            got = []

            def lmo(g, x, active_set=None):
                got.append(np.array(g))
                return x * 0 + 1.0, 0, None, 1.0
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                zoo.solve(case, fun=ref.value, jac=jac, lmo=lmo, **kw)
            return got[0]
        close(asked("2-point"), asked(lambda x: ref.grad(x) + shift), noise * max(L, 1) * 10 + 1e-9 * s,
              "gradient estimated with eps=%s", eps)
    else:
        close(arr(q.x, (d,)), arr(p.x, (d,)), 1e-9 * s + 100 * noise, "%s with gradients estimated with eps=%s",
              case["solver"], eps)
    t.hit(np.max(np.abs(shift)) > 1e-4, case["solver"])
    t.label("eps per coordinate" if case["per"] else "", "eps %g" % case["eps"])


SUBS = [
    Sub("exact", case(), check_exact, 1200, rule="the solver moves"),
    Sub("estimated", estimated_case(), check_estimated, 320, rule="the solver moves"),
    Sub("eps", eps_case(), check_eps, 500, rule="the finite differences are far from the gradient"),
]
