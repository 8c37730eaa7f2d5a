"""Linear minimization oracles return feasible vertices that maximize."""
import numpy as np
from hypothesis import strategies as st

from .. import gens, huge, refs
from ..core import Sub, arr, close, ensure, num

RULE = "directions with ties, zeros, single signs and wide scales; iterates in the set."


@st.composite
def feasible(draw, c, d):
    """a point of the set, as a convex combination of projected points"""
    v = draw(gens.vec(d))
    return refs.prox(c, np.array(v), 1.0).tolist()


@st.composite
def case(draw, d_max=9):
    d = draw(st.integers(1, d_max))
    c = draw(gens.penalty_case(d, ["l1ball", "simplex", "traceball"]))
    u = draw(st.one_of(gens.vec(d, gens.KINDS), gens.sparse_vec(d, gens.KINDS)))
    scale = 10.0 ** draw(st.sampled_from([0, 0, 0, 0, -12, -9, -6, -3, 6]))
    return {"pen": c, "u": [scale * v for v in u], "x": draw(feasible(c, d)), "arg": draw(st.booleans())}


@st.composite
def spectrum_case(draw):
    """matrices large enough for the singular vectors to take several rounds"""
    m, n = draw(st.integers(2, 45)), draw(st.integers(2, 45))
    k = min(m, n)
    kind = draw(st.sampled_from(["close", "spread", "tied", "low rank"]))
    return {"shape": [m, n], "radius": draw(st.sampled_from([1.0, 0.3, 20.0])), "kind": kind,
            "gap": draw(st.sampled_from([1e-1, 1e-2, 1e-3])), "rank": draw(st.integers(1, k)),
            "scale": draw(st.sampled_from([1.0, 1e-9, 1e-3, 1e5])), "seed": draw(st.integers(0, 10**6))}


def check_spectrum(case, t):
    m, n = case["shape"]
    rng = np.random.RandomState(case["seed"])
    k = min(m, n)
    i = np.arange(k)
    sv = {"close": (1 - case["gap"]) ** i, "spread": 1.0 / (1 + i) ** 2, "tied": np.where(i < 3, 1.0, 0.5),
          "low rank": 1.0 * (i < case["rank"])}[case["kind"]] * case["scale"]
    u = (np.linalg.qr(rng.randn(m, k))[0] * sv) @ np.linalg.qr(rng.randn(n, k))[0].T
    c = {"kind": "traceball", "radius": case["radius"], "shape": [m, n]}
    r = case["radius"]
    x = refs.prox(c, rng.randn(m * n), 1.0)
    out = gens.build_penalty(c).lmo(u.ravel(), x.copy())
    s = x + arr(out[0], x.shape, "update direction")
    ensure(r * sv[0] - u.ravel() @ s <= 1e-9 * r * sv[0], "vertex has <u,s> = %r, the maximum is %r",
           u.ravel() @ s, r * sv[0])
    ensure(refs.infeasibility(c, s) <= 1e-8 * r, "vertex infeasible by %g", refs.infeasibility(c, s))
    ensure(extreme(c, s, 1e-7 * r * k), "not a vertex")
    t.hit(k > 20, case["kind"])


def extreme(c, s, tol):
    if c["kind"] == "traceball":
        sv = np.linalg.svd(s.reshape(c["shape"]), compute_uv=False)
        return abs(sv[0] - c["radius"]) <= tol and sv[1:].sum() <= tol
    big = np.abs(s) > tol
    return big.sum() == 1 and abs(np.abs(s).max() - c["radius"]) <= tol


def check(case, t):
    c = case["pen"]
    u, x = np.array(case["u"]), np.array(case["x"])
    ku, kx = u.copy(), x.copy()
    con = gens.build_penalty(c)
    out = con.lmo(u, x, None) if case["arg"] else con.lmo(u, x)
    ensure(len(out) == 4, "the oracle returned %d values", len(out))
    direction = arr(out[0], x.shape, "update direction")
    ensure(np.array_equal(u, ku) and np.array_equal(x, kx), "the oracle changed its arguments")
    s = x + direction
    r = c["radius"]
    ensure(refs.infeasibility(c, s) <= 1e-8 * r, "vertex of %s infeasible by %g", c,
           refs.infeasibility(c, s))
    best = refs.support(c, u)
    scale = r * np.max(np.abs(u)) * u.size
    ensure(best - u @ s <= 1e-8 * scale, "vertex has <u,s> = %r, the maximum is %r", u @ s, best)
    ensure(num(out[3], "maximum step size") == 1, "maximum step size is %r", out[3])
    if np.any(u):
        ensure(extreme(c, s, 1e-7 * r), "%s is not a vertex of %s", s.tolist(), c)
    hash(out[1])
    t.hit(np.any(u), c["kind"])
    t.label("nonpositive" if np.all(u <= 0) else "", "zero" if not np.any(u) else "",
            "tied" if (np.abs(u) == np.abs(u).max()).sum() > 1 else "")


@st.composite
def seq_case(draw, d_max=6):
    d = draw(st.integers(1, d_max))
    c = draw(gens.penalty_case(d, ["l1ball"]))
    us = draw(st.lists(st.one_of(gens.vec(d), gens.sparse_vec(d)), min_size=2, max_size=8))
    w = draw(st.lists(st.integers(1, 9), min_size=len(us), max_size=len(us)))
    scale = 10.0 ** draw(st.sampled_from([0, 0, 0, -12, -9, -6, 6]))
    return {"pen": c, "us": us, "w": w, "u": [scale * v for v in draw(gens.vec(d))]}


def check_pairwise(case, t):
    """names of vertices identify them, and the pairwise direction moves weight
    from the worst active vertex to the best vertex"""
    c = case["pen"]
    con = gens.build_penalty(c)
    r = c["radius"]
    d = len(case["u"])
    zero = np.zeros(d)
    vertex, weight = {}, {}
    for u, w in zip(case["us"], case["w"]):
        u = np.array(u)
        out = con.lmo(u, zero.copy())
        s = arr(out[0], (d,), "update direction")
        if out[1] in vertex:
            close(vertex[out[1]], s, 1e-12 * r, "two vertices share the name %r", out[1])
        else:
            for k, q in vertex.items():
                ensure(np.max(np.abs(q - s)) > 1e-9 * r or not np.any(s),
                       "vertex %s has two names %r and %r", s.tolist(), k, out[1])
        vertex[out[1]] = s
        weight[out[1]] = weight.get(out[1], 0.0) + w
    total = sum(weight.values())
    weight = {k: w / total for k, w in weight.items()}
    x = sum(weight[k] * vertex[k] for k in weight)
    keep = dict(weight)
    u = np.array(case["u"])
    ku, kx = u.copy(), x.copy()
    direction, fw, away, mx = con.lmo_pairwise(u, x, weight)
    direction = arr(direction, (d,), "update direction")
    ensure(weight == keep, "the oracle changed the active set")
    ensure(np.array_equal(u, ku) and np.array_equal(x, kx), "the oracle changed its arguments")
    ensure(away in keep, "the away vertex %r is not active", away)
    low = min(u @ vertex[k] for k in keep)
    scale = r * np.max(np.abs(u)) * d + 1e-300
    ensure(u @ vertex[away] - low <= 1e-9 * scale, "away vertex is not the least correlated one")
    ensure(abs(num(mx) - keep[away]) <= 1e-12, "maximum step %r, weight of the away vertex %r",
           mx, keep[away])
    s = direction + vertex[away]
    ensure(refs.support(c, u) - u @ s <= 1e-9 * scale and refs.infeasibility(c, s) <= 1e-9 * r,
           "forward vertex %s does not maximize", s.tolist())
    if fw in vertex:
        close(vertex[fw], s, 1e-9 * r, "name of the forward vertex")
    ref = con.lmo(u, zero.copy())
    ensure(ref[1] == fw, "the two oracles name the same vertex %r and %r", ref[1], fw)
    ensure(refs.infeasibility(c, x + mx * direction) <= 1e-9 * r, "maximum step leaves the set")
    t.hit(len(keep) > 1, "%d active" % min(len(keep), 4))


SUBS = [
    Sub("lmo", case(), check, 3000, rule="nonzero direction"),
    Sub("pairwise", seq_case(), check_pairwise, 1500, rule="at least two active vertices"),
    Sub("lmo_large", case(48), check, 200, rule="as lmo"),
    Sub("lmo_spectrum", spectrum_case(), check_spectrum, 160, rule="at least 21 singular values"),
    Sub("pairwise_large", seq_case(30), check_pairwise, 100, rule="as pairwise"),
    Sub("huge", huge.case(["l1ball", "simplex"]), huge.check_lmo, 40, rule=huge.RULE),
]
