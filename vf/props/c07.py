"""Total variation proximal operators and operators."""
import warnings

import numpy as np
from hypothesis import strategies as st
from scipy import optimize

from .. import gens, refs, units
from ..core import Sub, arr, close, ensure, num

RULE = ("signals with plateaus, ties, steps, constant and monotone pieces, lengths from 1 to "
        "200, shapes from 1x1, weights over six decades.")


@st.composite
def signal(draw, d, wide=True):
    style = draw(st.sampled_from(["vec", "vec", "plateaus", "ramp"] + ["wide"] * wide))
    if style == "vec":
        return draw(gens.vec(d))
    if style == "wide":
        return draw(gens.vec(d, gens.KINDS))
    if style == "plateaus":
        v = []
        while len(v) < d:
            v += [draw(st.integers(-4, 4)) / 2.0] * draw(st.integers(1, 4))
        return v[:d]
    a, noise = draw(st.integers(-3, 3)), draw(gens.vec(d))
    return [a * i + 0.1 * noise[i] for i in range(d)]


@st.composite
def case1d(draw):
    d = draw(st.one_of(st.integers(1, 12), st.integers(13, 40)))
    return {"w": draw(signal(d)), "lam": draw(st.one_of(gens.positive, gens.mild_positive, st.just(0.0))),
            "t": draw(gens.mild_positive), "f32": draw(st.integers(0, 9)) == 0}


def certify1d(w, p, lam, tol, what):
    """p = argmin lam TV(p) + |p - w|^2/2, by its dual certificate:
    nu = -cumsum(w - p) is bounded by lam and aligned with the jumps of p"""
    w, p = np.asarray(w, np.longdouble), np.asarray(p, np.longdouble)
    n = w.size
    nu = -np.cumsum(w - p)
    ensure(abs(float(nu[-1])) <= tol * n, "%s: the mean moved by %g", what, nu[-1] / n)
    nu = nu[:-1]
    if n > 1:
        ensure(float(np.max(np.abs(nu))) <= lam + tol * n, "%s: dual infeasible: %g > %g", what,
               np.max(np.abs(nu)), lam)
        jumps = np.diff(p)
        gap = float(np.sum(lam * np.abs(jumps) - nu * jumps))
        ensure(gap <= tol * n * (1 + float(np.sum(np.abs(jumps))) + lam), "%s: duality gap %g", what, gap)


def check1d(case, t):
    import copt
    w = np.array(case["w"], dtype=np.float32 if case["f32"] else float)
    keep = w.copy()
    lam = case["lam"]
    p = arr(copt.tv_prox.prox_tv1d(w, lam), w.shape, "prox_tv1d")
    ensure(np.array_equal(w, keep), "prox_tv1d changed its argument")
    s = np.abs(w).max() * w.size + lam + 1e-290
    eps = 3e-6 if case["f32"] else 1e-13
    certify1d(keep, p, float(np.float32(lam)) if case["f32"] else lam, eps * s, "prox_tv1d")
    if not case["f32"]:
        c = {"kind": "fused", "lam": case["lam"]}
        pen = gens.build_penalty(c)
        q = arr(pen.prox(w, case["t"]), w.shape, "FusedLasso.prox")
        certify1d(keep, q, lam * case["t"], eps * (s + lam * case["t"]), "FusedLasso.prox")
        got, want = num(pen(w)), refs.pen_value(c, w)
        ensure(abs(got - want) <= 1e-12 * (abs(want) + lam * s), "FusedLasso value %r, expected %r", got, want)
    t.hit(np.ptp(p) > 0 and np.max(np.abs(p - keep)) > 0)
    t.label("constant" if np.ptp(p) == 0 else "", "plateau" if np.any(np.diff(p) == 0) else "",
            "f32" if case["f32"] else "", "n>12" if w.size > 12 else "", "n=1" if w.size == 1 else "")


@st.composite
def long1d(draw):
    base = draw(signal(draw(st.integers(4, 20))))
    reps = draw(st.integers(2, 10))
    slope = draw(st.sampled_from([0.0, 0.1, -0.3]))
    w = [a + slope * i for i in range(reps) for a in (base if i % 2 else base[::-1])]
    return {"w": w, "lam": draw(st.one_of(gens.mild_positive, gens.positive)), "t": 1.0, "f32": False}


@st.composite
def case2d(draw, wide=True):
    r, q = draw(st.integers(1, 5)), draw(st.integers(1, 5))
    return {"shape": [r, q], "w": draw(signal(r * q, wide)), "lam": draw(gens.mild_positive),
            "t": draw(st.sampled_from([0.5, 1.0, 2.0])), "tol": draw(st.sampled_from([1e-10, 1e-8, 1e-5, 1e-3]))}


def check_lines(case, t):
    import copt
    r, q = case["shape"]
    w = np.array(case["w"], dtype=float)
    keep = w.copy()
    lam = case["lam"]
    s = 1e-13 * (np.abs(w).max() * w.size + lam + 1e-290)
    cols = arr(copt.tv_prox.prox_tv1d_cols(lam, w, r, q), w.shape, "prox_tv1d_cols").reshape(r, q)
    rows = arr(copt.tv_prox.prox_tv1d_rows(lam, w, r, q), w.shape, "prox_tv1d_rows").reshape(r, q)
    ensure(np.array_equal(w, keep), "the argument changed")
    W = keep.reshape(r, q)
    for j in range(q):
        certify1d(W[:, j], cols[:, j], lam, s, "column %d" % j)
    for i in range(r):
        certify1d(W[i], rows[i], lam, s, "row %d" % i)
    c = {"kind": "tv2d", "lam": lam, "shape": [r, q]}
    got, want = num(gens.build_penalty(c)(w)), refs.pen_value(c, w)
    ensure(abs(got - want) <= 1e-11 * (want + lam * np.abs(w).max() * w.size), "TV value %r, expected %r", got, want)
    D = arr(copt.tv_prox.tv2d_linear_operator(r, q), None, "tv2d operator")
    ensure(D.ndim == 2 and D.shape[1] == r * q, "operator has shape %s", D.shape)
    tv = np.sum(np.abs(D @ w)) * lam
    ensure(abs(tv - want) <= 1e-11 * (want + lam * np.abs(w).max() * w.size), "|Lx|_1 = %r, TV = %r", tv, want)
    t.hit(np.ptp(w) > 0, "square" if r == q else "wide" if r < q else "tall")


def dual2d(w, lam, r, q):
    """reference 2D prox by the box constrained dual"""
    idx = np.arange(r * q).reshape(r, q)
    E = [(idx[i, j], idx[i + 1, j]) for i in range(r - 1) for j in range(q)]
    E += [(idx[i, j], idx[i, j + 1]) for i in range(r) for j in range(q - 1)]
    if not E:
        return w.copy()
    D = np.zeros((len(E), r * q))
    for k, (a, b) in enumerate(E):
        D[k, a], D[k, b] = -1, 1
    s = max(1.0, np.abs(w).max())
    u = optimize.lsq_linear(D.T, w / s, bounds=(-lam / s, lam / s), method="bvls",
                            tol=1e-15, max_iter=100 * len(E) + 100).x
    return (w / s - D.T @ u) * s


def check2d(case, t):
    import copt
    r, q = case["shape"]
    N = r * q
    w = np.array(case["w"], dtype=float)
    keep = w.copy()
    lam = case["lam"]
    want = dual2d(keep, lam, r, q)
    for route in ("function", "penalty", "default"):
        tol = case["tol"] if route != "default" else 1e-6
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter("always")
            if route == "function":
                got = copt.tv_prox.prox_tv2d(w, lam, r, q, max_iter=20000, tol=tol)
            elif route == "penalty":
                got = copt.penalty.TotalVariation2D(lam / case["t"], (r, q), max_iter=20000, tol=tol).prox(
                    w, case["t"])
            else:
                got = copt.tv_prox.prox_tv2d(w, lam, r, q)
        got = arr(got, (N,), "prox_tv2d")
        ensure(np.array_equal(w, keep), "prox_tv2d changed its argument")
        converged = not any("did not converge" in str(x.message) for x in rec)
        if route != "default":
            ensure(converged, "prox_tv2d did not converge in 20000 iterations")
        if converged:
            # the two half-steps differ by at most tol: the error is a small
            # multiple of it (at most 8 on 6000 random images up to 5 x 5)
            err = np.max(np.abs(got - want))
            bound = 60 * tol + 1e-9 * (np.abs(keep).max() + lam)
            ensure(err <= bound, "2D prox (%s) off by %g, at most %g allowed: %s, expected %s", route,
                   err, bound, got.tolist(), want.tolist())
        t.label("" if converged else "default budget not enough")
    t.hit(np.ptp(want) > 0 and min(r, q) > 1, "square" if r == q else "wide" if r < q else "tall")


@st.composite
def huge_case(draw):
    return {"n": draw(st.integers(32760, 70000)), "lam": draw(st.sampled_from([0.1, 1.0, 30.0])),
            "style": draw(st.sampled_from(["noise", "walk", "steps"])), "seed": draw(st.integers(0, 10 ** 6))}


def check_huge(case, t):
    """signals longer than what 16-bit indices can count"""
    import copt
    n, rng = case["n"], np.random.RandomState(case["seed"])
    w = rng.randn(n)
    if case["style"] == "walk":
        w = np.cumsum(w) * 0.1
    elif case["style"] == "steps":
        w = np.repeat(rng.randn(n // 500 + 1), 500)[:n] * 3 + 0.1 * w
    p = arr(copt.tv_prox.prox_tv1d(w, case["lam"]), (n,), "prox_tv1d")
    certify1d(w, p, case["lam"], 1e-13 * (np.abs(np.cumsum(w)).max() + case["lam"] + 1), "prox_tv1d")
    t.hit(np.ptp(p) > 0, case["style"])


SUBS = [
    Sub("units", units.case(["fused", "tv2d"]), units.check, 500, rule=units.RULE),
    Sub("tv1d", case1d(), check1d, 3000, rule="result neither constant nor the input"),
    Sub("tv1d_long", long1d(), check1d, 500, rule="as tv1d, up to 200 points"),
    Sub("lines", case2d(), check_lines, 1200, rule="image is not constant"),
    Sub("tv2d", case2d(wide=False), check2d, 500, rule="both sides above 1 and result not constant"),
    Sub("huge", huge_case(), check_huge, 16, thorough=150, rule="the result is not constant"),
]
