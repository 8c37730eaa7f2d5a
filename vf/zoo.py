"""Every solver behind one interface, for properties that hold across all of them."""
import numpy as np
from hypothesis import strategies as st

from . import fw, gens, solvers
from .props import c11, c15, c16

BATCH = ["pgd", "apgd", "tos", "pdhg", "fw", "pfw"]
STOCHASTIC = ["saga", "svrg", "vrtos", "sfw"]
ALL = BATCH + STOCHASTIC


@st.composite
def case(draw, names=ALL, n_max=6, d_max=5, zero_cols=False):
    c = draw(gens.loss_case(n_max=n_max, d_max=d_max, zero_cols=zero_cols))
    c["ratio"] = draw(st.sampled_from([0.1, 0.3, 1.0]))
    d = c["d"]
    c["solver"] = s = draw(st.sampled_from(list(names)))
    if s in ("pgd", "apgd"):
        c["pen"] = draw(gens.penalty_case(d, gens.EXACT))
        c["step"] = draw(st.sampled_from(["backtracking", "callable"]))
    elif s in ("tos", "pdhg"):
        c["pens"] = draw(c11.pair(d))
        c["step"] = draw(st.sampled_from(["search", "fixed"]))
    elif s in ("fw", "sfw"):
        c["set"] = draw(fw.set_case(d, ("l1ball", "simplex", "hull", "traceball")))
        c["step"] = draw(st.sampled_from(["DR", "sublinear", "callable"] + (["backtracking"] * 2 if s == "fw" else [])))
        c["variant"] = draw(st.sampled_from(["SAG", "SAGA", "MHK", "LF"]))
        c["batch"] = draw(st.integers(1, c["n"]))
    elif s == "pfw":
        c["set"] = draw(fw.set_case(d, ("l1ball", "hull")))
        c["step"] = draw(st.sampled_from(["DR", "backtracking"]))
        c["vertex"] = draw(st.integers(0, 11))
    elif s in ("saga", "svrg"):
        c["pen"] = draw(gens.penalty_case(d, ["none", "l1", "group"]))
    else:
        c["pens"] = [draw(gens.penalty_case(d, ["none", "l1", "group"])) for _ in (1, 2)]
    if s in ("fw", "sfw"):
        c["x0"] = fw.start_point(c["set"], d, draw(fw.start(c["set"], d))).tolist()
    elif s == "pfw":
        c["x0"] = fw.vertex(c["set"], d, c["vertex"])[0].tolist()
    else:
        c["x0"] = draw(st.one_of(st.just([0.0] * d), gens.vec(d)))
    c["rng"] = draw(st.integers(0, 10 ** 6))
    return c


def terms(case):
    """nonsmooth terms of the problem the solver is given"""
    if "set" in case:
        return [case["set"]]
    return case["pens"] if "pens" in case else [case["pen"]]


def h_of(case):
    return 0.25 if case["loss"] == "log" else 1.0


def solve(case, x0=None, A=None, b=None, callback=None, tol=1e-7, max_iter=200, f=None, deriv=None, fun=None, jac=None,
          args=(), penalties=None, **more):
    """one run.  f: loss object with f_grad; fun/jac/args: how pgd and the
    Frank-Wolfe methods receive it instead; penalties: prebuilt objects"""
    import copt
    d, s = case["d"], case["solver"]
    np.random.seed(case["rng"])
    if x0 is None:
        x0 = np.array(case["x0"])
    L = gens.lipschitz_of(case)
    kw = dict(tol=tol, max_iter=max_iter, callback=callback, **more)
    step = case.get("step")
    if s in BATCH and f is None:
        f = gens.build_loss(case)
    if s in STOCHASTIC:
        A = np.array(case["A"]) if A is None else A
        b = np.array(case["b"]) if b is None else b
        deriv = deriv or c15.derivative(case)
    pens = penalties
    if pens is None and "set" not in case:
        pens = [gens.build_penalty(p) for p in terms(case)]
    prox = [p if p is None else p.prox for p in pens] if pens is not None else None
    if fun is None and s in BATCH:
        fun, jac = f.f_grad, True
    if s in ("pgd", "apgd"):
        if step == "callable":
            kw["step"] = lambda dl: 1.0 / L
        return copt.minimize_proximal_gradient(fun, x0, prox[0], jac=jac, args=args, accelerated=s == "apgd", **kw)
    if s == "tos":
        if step == "fixed":
            kw.update(step_size=1.0 / L, line_search=False)
        return copt.minimize_three_split(f.f_grad, x0, prox[0], prox[1], **kw)
    if s == "pdhg":
        if step == "fixed":
            kw.update(step_size=0.9 / (0.5 * L + 1.0), step_size2=1.0, line_search=False)
        return copt.minimize_primal_dual(f.f_grad, x0, prox[0], prox[1], **kw)
    if s in ("fw", "pfw"):
        kw["step"] = step
        if step == "DR":
            kw["lipschitz"] = L
        if step == "callable":
            kw["step"] = lambda dl: 2.0 / (dl["it"] + 3)
        if s == "pfw":
            kw.update(variant="pairwise", x0_rep=fw.vertex(case["set"], d, case["vertex"])[1])
        return copt.minimize_frank_wolfe(fun, x0, kw.pop("lmo", None) or fw.build(case["set"], s == "pfw", d), jac=jac,
                                         args=args, **kw)
    if s in ("saga", "svrg"):
        solver = copt.minimize_saga if s == "saga" else copt.minimize_svrg
        return solver(deriv, A, b, x0, c15.step_size(case), alpha=gens.alpha_of(case),
                      prox=None if pens[0] is None else pens[0].prox_factory(d), **kw)
    if s == "vrtos":
        size = min(c15.step_size(case, c16.blocks_of(p, d)) for p in case["pens"])
        return copt.minimize_vrtos(deriv, A, b, x0, size, alpha=gens.alpha_of(case),
                                   prox_1=None if pens[0] is None else pens[0].prox_factory(d),
                                   prox_2=None if pens[1] is None else pens[1].prox_factory(d), **kw)
    if step == "DR":
        kw["lipschitz"] = max(gens.curvature(case), 1e-6)
    if step == "callable":
        k = [0]

        def step(dl):
            k[0] += 1
            return 2.0 / (k[0] + 3), 0.5
    return copt.minimize_sfw(deriv, A, b, x0, kw.pop("lmo", None) or fw.build(case["set"]), batch_size=case["batch"], step_size=step,
                             variant=case["variant"], **kw)
