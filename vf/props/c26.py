"""Units and symmetries: the same problem written differently, the same iterates."""
import numpy as np
from hypothesis import strategies as st

from .. import fw, gens, solvers, zoo, units
from ..core import Sub, Reject, arr, ensure
from . import c15, c16

RULE = ("each solver on a random problem and on the same problem with the objective or the variables in other units "
        "(powers of two, steps to match), features permuted, reversed or with flipped signs, samples reordered or "
        "repeated; all iterates are compared.")


@st.composite
def case(draw, names=zoo.ALL):
    c = draw(zoo.case(names))
    s = c["solver"]
    if s in ("fw", "pfw", "sfw") and c["step"] == "backtracking":
        c["step"] = "DR"
    c["search"] = s in ("pdhg", "tos") and draw(st.booleans())
    if c.get("set", {}).get("kind") == "traceball":
        # equal singular values leave the vertex to chance
        c["set"] = {"kind": "l1ball", "radius": c["set"]["radius"]}
    if s == "pdhg":
        # the dual variable starts at the same numbers as the primal one
        c["x0"] = [0.0] * c["d"]
    c["s"] = draw(st.sampled_from([0.3, 1.0, 4.0]))
    c["r"] = draw(st.sampled_from([0.3, 1.0, 2.0]))
    c["iters"] = draw(st.integers(2, 14))
    return c


@st.composite
def units_case(draw):
    c = draw(case())
    e = 6 if c["solver"] == "pdhg" else 14
    c["sig"], c["kap"] = draw(st.tuples(st.integers(-e, e), st.integers(-e, e)).filter(any))
    return c


def scaled_term(p, sig, kap):
    """sig * p(kap * .)"""
    q = dict(p)
    if "lam" in q:
        q["lam"] = q["lam"] * sig * kap
    if "radius" in q:
        q["radius"] = q["radius"] / kap
    if "points" in q:
        q["points"] = (np.array(q["points"]) / kap).tolist()
    return q


def run(case, sig=1.0, kap=1.0, case2=None):
    """the iterates of the solver on sig * (f + g)(kap * .); steps follow from
    the constants of `case`, data and terms from `case2`"""
    import copt
    d, s, c2 = case["d"], case["solver"], case2 or case
    L, alpha = gens.lipschitz_of(case), gens.alpha_of(case)
    unit = sig * kap * kap
    A, b = np.array(c2["A"]) * kap, np.array(c2["b"])
    x0 = np.array(c2["x0"]) / kap
    terms = [scaled_term(p, sig, kap) for p in zoo.terms(c2)]
    seen = []

    def callback(dl):
        seen.append(arr(dl["x"], (d,), "iterate") * kap)
    kw = dict(tol=0.0, max_iter=case["iters"], callback=callback)
    np.random.seed(case["rng"])
    loss = gens.build_loss(dict(c2, A=A, alpha=alpha * kap * kap))

    def f_grad(x, return_gradient=True):
        if return_gradient:
            v, g = loss.f_grad(x)
            return sig * v, sig * g
        return sig * loss.f_grad(x, return_gradient=False)
    step, it = case.get("step"), [0]
    pens = [gens.build_penalty(p) for p in terms] if "set" not in case else []
    prox = [p and p.prox for p in pens]
    if s in ("pgd", "apgd"):
        res = copt.minimize_proximal_gradient(f_grad, x0, prox[0], jac=True, accelerated=s == "apgd",
                                              step=lambda dl: (1 / L) / unit, **kw)
    elif s == "tos":
        # the factor keeps the search away from ties
        res = copt.minimize_three_split(f_grad, x0, *prox, step_size=((2.74 * case["s"] if case["search"] else 1) / L) / unit,
                                        line_search=case["search"], **kw)
    elif s == "pdhg":
        if case["search"]:
            kw.update(step_size=case["s"] / unit, step_size2=case["s"] * case["r"] * unit)
        else:
            tau = case["r"] * L
            kw.update(step_size=0.9 / (0.5 * L + tau) / unit, step_size2=tau * unit, line_search=False)
        res = copt.minimize_primal_dual(f_grad, x0, *prox, **kw)
    elif s in ("fw", "pfw"):
        if step == "DR":
            kw["lipschitz"] = L * unit
        kw["step"] = (lambda dl: 2.0 / (dl["it"] + 3)) if step == "callable" else step
        if s == "pfw":
            kw.update(variant="pairwise", x0_rep=fw.vertex(case["set"], d, case["vertex"])[1])
        res = copt.minimize_frank_wolfe(f_grad, x0, fw.build(terms[0], s == "pfw", d), jac=True, **kw)
    else:
        base = c15.derivative(c2)

        def deriv(p, y):
            return sig * base(p, y)
        if s == "sfw":
            curv = gens.curvature(case)
            if curv < 1e-6:
                raise Reject("no curvature")
            if step == "DR":
                kw["lipschitz"] = curv * unit
            if step == "callable":
                def step(dl):
                    it[0] += 1
                    return 2.0 / (it[0] + 3), 0.5
            res = copt.minimize_sfw(deriv, A, b, x0, fw.build(terms[0]), batch_size=case["batch"], step_size=step,
                                    variant=case["variant"], **kw)
        elif s == "vrtos":
            size = min(c15.step_size(case, c16.blocks_of(p, d)) for p in case["pens"])
            res = copt.minimize_vrtos(deriv, A, b, x0, size / unit, alpha=alpha * unit,
                                      prox_1=pens[0] and pens[0].prox_factory(d),
                                      prox_2=pens[1] and pens[1].prox_factory(d), **kw)
        else:
            solver = copt.minimize_saga if s == "saga" else copt.minimize_svrg
            res = solver(deriv, A, b, x0, c15.step_size(case) / unit, alpha=alpha * unit,
                         prox=pens[0] and pens[0].prox_factory(d), **kw)
    seen.append(solvers.solution(res, (d,), s) * kap)
    return seen


def compare(case, base, other, what, back=lambda x: x):
    s = case["solver"]
    scale = 1 + max(np.abs(x).max() for x in base)
    for k in range(min(len(base), len(other))):
        y = back(other[k])
        err = np.abs(y - base[k]).max()
        ensure(err <= 1e-8 * scale, "%s, %s: iterate %d is %s instead of %s", s, what, k, y.tolist(), base[k].tolist())
    # one run may have come to rest earlier than the other
    ensure(np.abs(back(other[-1]) - base[-1]).max() <= 1e-8 * scale, "%s, %s: solution %s instead of %s", s, what,
           back(other[-1]).tolist(), base[-1].tolist())
    return len(base) > 2 and any(np.abs(x - base[0]).max() > 1e-6 * scale for x in base[1:])


def check_units(case, t):
    """objective times sig, variables divided by kap, steps to match: every
    iterate is the same point in other units"""
    sig, kap = 2.0 ** case["sig"], 2.0 ** case["kap"]
    base = run(case)
    if not all(np.abs(x).max() < 1e6 for x in base):
        raise Reject("steps too long for this problem")
    other = run(case, sig, kap)
    t.hit(compare(case, base, other, "objective times 2^%d, variables divided by 2^%d" % (case["sig"], case["kap"])),
          case["solver"])
    t.label("objective" if case["sig"] else "", "variables" if case["kap"] else "")


# ------------------------------------------------------------------ symmetries

FREE = ("none", "l1", "group", "l2", "linf", "l1ball")


@st.composite
def symmetry_case(draw):
    c = draw(case(["pgd", "apgd", "tos", "pdhg", "saga", "svrg", "vrtos"]))
    c["search"] = False
    d, n = c["d"], c["n"]
    kinds = {p["kind"] for p in zoo.terms(c)}
    how = []
    if kinds <= set(FREE) - {"group"} | {"simplex"}:      # groups are contiguous
        how.append("permuted features")
    if kinds <= set(FREE):
        how.append("flipped signs")
    if kinds <= set(FREE) | {"simplex", "fused"}:
        how.append("reversed features")
    if c["solver"] in zoo.BATCH:
        how += ["reordered samples", "repeated samples"]
    if not how:
        c["how"] = "none"
        return c
    c["how"] = draw(st.sampled_from(how))
    c["p"] = draw(st.permutations(range(d)))
    c["q"] = draw(st.permutations(range(n)))
    c["flip"] = draw(st.lists(st.sampled_from([-1.0, 1.0]), min_size=d, max_size=d))
    c["times"] = draw(st.sampled_from([2, 3]))
    return c


def check_symmetry(case, t):
    how, d = case["how"], case["d"]
    if how == "none":
        raise Reject("no symmetry")
    A, b, x0 = np.array(case["A"]), np.array(case["b"]), np.array(case["x0"])
    c2, back = dict(case), lambda x: x
    if how in ("permuted features", "reversed features"):
        p = np.array(case["p"]) if how == "permuted features" else np.arange(d)[::-1]
        inv = np.argsort(p)
        c2.update(A=A[:, p].tolist(), x0=x0[p].tolist())
        moved = [dict(q, groups=sorted(sorted(int(inv[j]) for j in g) for g in q["groups"])) if q["kind"] == "group" else q
                 for q in zoo.terms(case)]
        c2.update(pens=moved) if "pens" in case else c2.update(pen=moved[0])
        back = lambda x: x[inv]
    elif how == "flipped signs":
        sgn = np.array(case["flip"])
        c2.update(A=(A * sgn).tolist(), x0=(x0 * sgn).tolist())
        back = lambda x: x * sgn
    elif how == "reordered samples":
        c2.update(A=A[case["q"]].tolist(), b=b[case["q"]].tolist())
    else:
        k = case["times"]
        c2.update(A=np.tile(A, (k, 1)).tolist(), b=np.tile(b, k).tolist(), n=k * case["n"])
    base = run(case)
    if not all(np.abs(x).max() < 1e6 for x in base):
        raise Reject("steps too long for this problem")
    t.hit(compare(case, base, run(case, case2=c2), how, back), case["solver"])
    t.label(how)


SUBS = [
    Sub("operators", units.case(), units.check, 1500, rule=units.RULE),
    Sub("units", units_case(), check_units, 3000, rule="the iterates move"),
    Sub("symmetry", symmetry_case(), check_symmetry, 2500, rule="the iterates move"),
    Sub("units_large", gens.large(units_case(), 40, 20), check_units, 300, rule="as units"),
    Sub("symmetry_large", gens.large(symmetry_case(), 40, 20), check_symmetry, 300, rule="as symmetry"),
]
