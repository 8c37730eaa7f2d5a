"""Second-order information and smoothness constants of the losses."""
import numpy as np
from hypothesis import strategies as st

from .. import gens, refs
from ..core import Sub, Reject, arr, close, ensure, num
from . import c04

RULE = ("losses as for the gradients, plus pairs of points for curvature; matrices with one "
        "row, one column and all zeros included.")


@st.composite
def hess_case(draw):
    c = draw(gens.loss_case(losses=("log",), n_max=7, d_max=6, ratio=False, zero_cols=True))
    c["alpha"] = draw(st.sampled_from([0.0, 1e-3, 0.1, 1.0, 30.0]))
    c["x"] = draw(gens.vec(c["d"]))
    c["scale"] = draw(st.sampled_from([0.1, 1.0, 1.0, 10.0, 100.0]))
    c["fmt"] = draw(st.sampled_from(gens.FORMATS + ["F", "csr", "dup"] + list(c04.NARROW)))
    c["vs"] = draw(st.lists(gens.vec(c["d"]), min_size=1, max_size=3))
    return c


def check_hess(case, t):
    case, x = c04.prepare(case)
    if case["fmt"] == "dia" and not np.any(case["A"]):
        case["fmt"] = "csr"     # scipy itself fails on products of empty dia matrices
    loss, A, b = c04.build(case)
    H = refs.Loss(case).hessian(x)
    aA = np.abs(np.array(case["A"]))
    bound = aA.T @ aA / case["n"] + case["alpha"] * np.eye(case["d"])
    kx = x.copy()
    for name in ("hessian_mv", "hessian_trace"):
        op = getattr(loss, name)(x)
        for v in case["vs"] + case["vs"][:1]:
            v = np.array(v)
            kv = v.copy()
            got = arr(op(v), v.shape, name)
            ensure(np.array_equal(v, kv), "%s changed its argument", name)
            tol = 1e-12 * (bound @ np.abs(v)).max() + 1e-300
            close(got, H @ v, tol, "%s", name)
    ensure(np.array_equal(x, kx), "the Hessian changed the point")
    t.hit(np.any(H != case["alpha"] * np.eye(case["d"])), case["fmt"])
    t.label("ridge" if case["alpha"] else "")


def check_intercept(case, t):
    case, loss, one, ref, x = c04.with_intercept(case)
    d = case["d"]
    H = ref.hessian(x)
    H[d, d] -= case["alpha"]
    aA = np.abs(np.array(one["A"]))
    bound = aA.T @ aA / case["n"] + case["alpha"] * np.eye(d + 1)
    for name in ("hessian_mv", "hessian_trace"):
        op = getattr(loss, name)(x)
        for v in case["vs"] + case["vs"][:1]:
            v = np.array(v)
            close(arr(op(v), v.shape, name), H @ v, 1e-12 * (bound @ np.abs(v)).max() + 1e-300, "%s with intercept", name)
    t.hit(np.any(x), case["fmt"])


@st.composite
def lip_case(draw):
    c = draw(gens.loss_case(n_max=7, d_max=6, ratio=False, zero_cols=True))
    if draw(st.integers(0, 30)) == 0:
        c["A"] = [[0.0] * c["d"] for _ in range(c["n"])]
    c["alpha"] = draw(st.sampled_from([0.0, 1e-3, 0.1, 1.0, 30.0]))
    c["scale"] = 1.0
    c["fmt"] = draw(st.sampled_from(gens.FORMATS + ["F", "csr", "dup"] + list(c04.NARROW)))
    c["x"], c["y"] = draw(gens.vec(c["d"])), draw(gens.vec(c["d"]))
    c["kink"] = False
    return c


def check_lip(case, t):
    import copt
    case, x = c04.prepare(case)
    loss, A, b = c04.build(case)
    got = num(loss.lipschitz, "smoothness constant")
    want = gens.curvature(case) + case["alpha"]
    ensure(abs(got - want) <= 1e-8 * want + 1e-14, "smoothness constant %r, expected %r", got, want)
    # it does bound the variation of the gradient
    y = np.array(case["y"])
    lhs = np.linalg.norm(loss.f_grad(x)[1] - loss.f_grad(y)[1])
    rhs = np.linalg.norm(x - y) * got
    ensure(lhs <= rhs * (1 + 1e-8) + 1e-11 * (1 + np.abs(np.array(case["A"])).sum() ** 2) *
           (1 + np.abs(x).max() + np.abs(y).max()),
           "gradients differ by %r, at most %r allowed", lhs, rhs)
    if case["loss"] != "huber":
        loss, A, b = c04.build(case)        # data nothing has been computed with
        rows = np.sum(np.array(case["A"], dtype=float) ** 2, axis=1)
        big = (0.25 if case["loss"] == "log" else 1.0) * rows.max() + case["alpha"]
        ensure(abs(num(loss.max_lipschitz) - big) <= 1e-10 * big + 1e-300,
               "per-sample constant %r, expected %r", loss.max_lipschitz, big)
        if case["loss"] == "log":
            v = copt.utils.get_max_lipschitz(c04.build(case)[1], "logloss", case["alpha"])
            ensure(abs(num(v) - big) <= 1e-10 * big + 1e-300, "get_max_lipschitz %r, expected %r", v, big)
    t.hit(want > 0 and lhs > 0, case["loss"])
    t.label(case["fmt"], "one row" if case["n"] == 1 else "", "one column" if case["d"] == 1 else "",
            "zero" if not np.any(case["A"]) else "")


@st.composite
def spectrum_case(draw):
    """enough singular values, close to each other, for the largest to take several rounds"""
    n, d = draw(st.integers(2, 150)), draw(st.integers(2, 150))
    return {"n": n, "d": d, "kind": draw(st.sampled_from(["close", "spread", "tied"])),
            "gap": draw(st.sampled_from([1e-1, 1e-2, 1e-3])), "loss": draw(st.sampled_from(["log", "square", "huber"])),
            "scale": draw(st.sampled_from([1.0, 1e-4, 1e-2, 1e3])), "ridge": draw(st.sampled_from([0.0, 0.0, 0.1])),
            "fmt": draw(st.sampled_from(["dense", "csr", "csc", "F"])), "seed": draw(st.integers(0, 10 ** 6))}


def check_spectrum(case, t):
    rng = np.random.RandomState(case["seed"])
    n, d = case["n"], case["d"]
    k = min(n, d)
    i = np.arange(k)
    sv = {"close": (1 - case["gap"]) ** i, "spread": 1.0 / (1 + i) ** 2,
          "tied": np.where(i < 3, 1.0, 0.5)}[case["kind"]] * case["scale"]
    A = (np.linalg.qr(rng.randn(n, k))[0] * sv) @ np.linalg.qr(rng.randn(d, k))[0].T
    want = (0.25 if case["loss"] == "log" else 1.0) * sv[0] ** 2 / n
    alpha = case["ridge"] * want
    c = {"loss": case["loss"], "A": A.tolist(), "b": (rng.rand(n) < 0.5).astype(float).tolist(), "alpha": alpha, "delta": 1.0,
         "n": n, "d": d}
    got = num(c04.build(dict(c, fmt=case["fmt"]))[0].lipschitz, "smoothness constant")
    ensure(abs(got - want - alpha) <= 1e-7 * want, "smoothness constant %r, expected %r", got, want + alpha)
    t.hit(k > 40, case["kind"])
    t.label(case["loss"])


SUBS = [
    Sub("hessian", hess_case(), check_hess, 2500, rule="the data contribute curvature"),
    Sub("intercept", c04.intercept_case(), check_intercept, 500, rule="x is not zero"),
    Sub("smoothness", lip_case(), check_lip, 2500, rule="positive constant and distinct gradients"),
    Sub("spectrum", spectrum_case(), check_spectrum, 120, rule="at least 41 singular values"),
    Sub("hessian_large", gens.large(hess_case(), 150, 60), check_hess, 200, rule="as hessian"),
    Sub("smoothness_large", gens.large(lip_case(), 150, 60), check_lip, 200, rule="as smoothness"),
]
