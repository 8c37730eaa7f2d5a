"""Projections onto the constraint sets are exact Euclidean projections."""
import numpy as np
from hypothesis import strategies as st

from .. import gens, huge, refs, units
from ..core import Sub, arr, close, ensure, num

RULE = ("points inside, on the boundary (exactly and up to rounding) and outside "
        "of the set, with ties, zeros, all-negative and all-positive coordinates, "
        "radii and magnitudes over many decades.")
KINDS = gens.CONSTRAINTS


@st.composite
def case(draw):
    d = draw(st.integers(1, 9))
    c = draw(gens.penalty_case(d, KINDS))
    c["radius"] = draw(gens.positive)
    v = draw(st.one_of(gens.vec(d, gens.KINDS), gens.sparse_vec(d, gens.KINDS)))
    mode = draw(st.sampled_from(["any", "any", "inside", "boundary", "near", "nearer", "nearest"]))
    return {"pen": c, "v": v, "mode": mode, "t": draw(gens.positive)}


def gauge(c, v):
    k = c["kind"]
    if k == "linf":
        return np.max(np.abs(v))
    if k == "l2":
        return np.linalg.norm(v)
    if k == "traceball":
        return np.linalg.svd(v.reshape(c["shape"]), compute_uv=False).sum()
    return np.sum(np.abs(v))


def point(case):
    c = case["pen"]
    v = np.array(case["v"], dtype=float)
    if case["mode"] != "any":
        g = gauge(c, v)
        if g > 0:
            if c["kind"] == "simplex":
                v = np.abs(v)
            v = v * (c["radius"] / g) * {"inside": 0.75, "boundary": 1.0,
                                         "near": 1.0 + 1e-3, "nearer": 1.0 + 1e-5, "nearest": 1.0 + 1e-7}[case["mode"]]
    return v


def check(case, t):
    c = case["pen"]
    v = point(case)
    keep = v.copy()
    con = gens.build_penalty(c)
    p = arr(con.prox(v, case["t"]), v.shape, "projection")
    ensure(np.array_equal(v, keep), "the projection changed its argument")
    r = c["radius"]
    s = max(np.max(np.abs(v)), r) * np.sqrt(v.size)
    tol = 1e-9 * s
    # projecting far points cancels digits of v; allow for those only
    ensure(refs.infeasibility(c, p) <= 1e-9 * r + 1e-13 * s * v.size,
           "projection onto %s is infeasible by %g", c, refs.infeasibility(c, p))
    # variational inequality, exact certificate of the projection:
    # <v - p, q - p> <= 0 for every q of the set, maximized in closed form
    gap = refs.support(c, v - p) - float((v - p) @ p)
    ensure(gap <= 1e-9 * s * r + 1e-12 * s * s, "not the nearest point: gap %g for %s", gap, c)
    close(p, refs.prox(c, v, 1.0), tol, "projection onto %s", c)
    close(con.prox(p.copy(), case["t"]), p, tol, "projection is not idempotent")
    close(con.prox(v.copy(), 7.5 * case["t"]), p, 1e-12 * s, "projection depends on the step size")
    if refs.infeasibility(c, v) <= 0 and c["kind"] != "simplex":
        close(p, v, 1e-12 * s, "feasible point was moved")
        t.label("inside")
    t.hit(np.max(np.abs(p - v)) > tol, c["kind"])
    t.label(case["mode"])


def check_indicator(case, t):
    c = case["pen"]
    v = point(case)
    r = c["radius"]
    con = gens.build_penalty(c)
    g = gauge(c, v)
    val = num(con(v), "indicator", finite=False)
    # the trace ball documents an absolute slack of float32 resolution
    slack = 1e-6 if c["kind"] == "traceball" else 0.0
    if g <= r * (1 - 1e-9):
        ensure(val == 0, "indicator of %s is %r inside (gauge %g)", c, val, g)
    elif g > r * (1 + 1e-9) + slack:
        ensure(val == np.inf, "indicator of %s is %r outside (gauge %g)", c, val, g)
    t.hit(True, "inside" if g <= r else "outside")


@st.composite
def indicator_case(draw):
    c = draw(case())
    d = len(c["v"])
    k = draw(st.sampled_from(["l1ball", "traceball"]))
    divs = [j for j in range(1, d + 1) if d % j == 0]
    q = draw(st.sampled_from(divs))
    c["pen"] = {"kind": k, "radius": c["pen"]["radius"], "shape": [q, d // q]}
    return c


@st.composite
def long_case(draw):
    base = draw(gens.vec(draw(st.integers(3, 12)), gens.MILD))
    reps = draw(st.integers(2, 12))
    v = [a * (1 + 0.1 * i) for i in range(reps) for a in base]
    c = draw(gens.penalty_case(len(v), KINDS))
    return {"pen": c, "v": v, "mode": draw(st.sampled_from(["any", "near"])), "t": 1.0}


@st.composite
def decades_case(draw):
    """coordinates of geometric decay: the support is found late"""
    base, n = draw(st.sampled_from([1.1, 1.5, 2.0, 3.0, 10.0])), draw(st.integers(5, 60))
    n = min(n, int(16 / np.log10(base)))
    sign = draw(st.sampled_from([-1.0, -1.0, 1.0, 0.0]))
    perm = draw(st.permutations(range(n))) if draw(st.booleans()) else range(n)
    v = [(sign or (-1) ** i) * base ** i * draw(st.sampled_from([1.0, 1e-6])) for i in perm]
    return {"pen": {"kind": draw(st.sampled_from(["simplex", "simplex", "l1ball"])), "radius": draw(gens.positive)},
            "v": v, "mode": "any", "t": 1.0}


def pre_check_functions(case, t):
    """the projection functions documented next to the classes"""
    from copt import constraint
    v = np.array(case["v"], dtype=float)
    s = case["pen"]["radius"]
    sc = max(np.max(np.abs(v)), s) * np.sqrt(v.size)
    close(arr(constraint.euclidean_proj_simplex(v.copy(), s), v.shape), refs.proj_simplex(v, s),
          1e-9 * sc, "euclidean_proj_simplex")
    close(arr(constraint.euclidean_proj_l1ball(v.copy(), s), v.shape), refs.proj_l1(v, s),
          1e-9 * sc, "euclidean_proj_l1ball")
    close(arr(constraint.euclidean_proj_simplex(v.copy()), v.shape), refs.proj_simplex(v, 1.0),
          1e-9 * max(sc, 1), "euclidean_proj_simplex with the default radius")
    close(arr(constraint.euclidean_proj_l1ball(v.copy()), v.shape), refs.proj_l1(v, 1.0),
          1e-9 * max(sc, 1), "euclidean_proj_l1ball with the default radius")
    t.hit(np.any(v != 0))


@st.composite
def far_case(draw):
    return dict(draw(case()), mode="any", pow=draw(st.integers(5, 22)), same=draw(st.booleans()))


def check_far(case, t):
    """points so far that the radius is below the resolution of their coordinates"""
    c = case["pen"]
    v = np.array(case["v"], dtype=float) * 10.0 ** case["pow"]
    if case["same"]:
        v = v[0] + np.array(case["v"], dtype=float)
    con = gens.build_penalty(c)
    p = arr(con.prox(v.copy(), case["t"]), v.shape, "projection")
    r = c["radius"]
    s = max(np.max(np.abs(v)), r) * np.sqrt(v.size)
    ensure(refs.infeasibility(c, p) <= 1e-9 * r, "projection of %s onto %s is infeasible by %g", v.tolist(), c,
           refs.infeasibility(c, p))
    gap = refs.support(c, v - p) - float((v - p) @ p)
    if c["kind"] != "simplex":
        ensure(gap <= 1e-9 * s * r, "not the nearest point: gap %g for %s", gap, c)
    else:
        # only differences between the coordinates matter
        w = v - v.max()
        gap = refs.support(c, w - p) - float((w - p) @ p)
        ensure(gap <= 1e-9 * r * (np.abs(w).max() + r), "not the nearest point of the simplex: gap %g", gap)
    t.hit(np.max(np.abs(v)) > 1e15 * r, c["kind"])
    t.label("same" if case["same"] else "")


FAR = [dict(pen={"kind": k, "radius": 1.0, "shape": [1, 2]}, v=v, t=1.0, mode="any", pow=17, same=False)
       for k in KINDS for v in ([1.0, 0.0], [1.0, 1.0], [-1.0, -1.0])]

SUBS = [
    Sub("units", units.case(gens.CONSTRAINTS), units.check, 500, rule=units.RULE),
    Sub("projection", case(), check, 4000, rule="the point was outside and moved"),
    Sub("projection_long", long_case(), check, 400, rule="as projection, up to 144 coordinates"),
    Sub("decades", decades_case(), check, 400, rule="as projection"),
    Sub("indicator", indicator_case(), check_indicator, 1500, rule="every case, on both sides"),
    Sub("far", far_case(), check_far, 800, pinned=FAR, rule="the radius is lost when added to the largest coordinate"),
    Sub("functions", case(), pre_check_functions, 800, rule="nonzero point"),
    Sub("huge", huge.case(gens.CONSTRAINTS), huge.check, 100, rule=huge.RULE),
]
