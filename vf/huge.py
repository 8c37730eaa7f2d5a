"""Proximal operators, projections and oracles on long vectors and larger matrices."""
import numpy as np
from hypothesis import strategies as st

from . import gens, refs
from .core import arr, ensure

RULE = "the operator moves the point, and not to zero"


@st.composite
def case(draw, kinds):
    kind = draw(st.sampled_from(list(kinds)))
    c = {"kind": kind, "seed": draw(st.integers(0, 10 ** 6)), "t": draw(st.sampled_from([0.1, 1.0, 3.0])),
         "lam": draw(st.sampled_from([0.01, 0.3, 1.0])), "radius": draw(st.sampled_from([0.5, 1.0, 30.0])),
         "ties": draw(st.booleans()), "scale": draw(st.sampled_from([1.0, 1.0, 1e-6, 1e4]))}
    if kind.startswith("trace"):
        c["shape"] = [draw(st.integers(10, 70)), draw(st.integers(10, 70))]
        c["rank"] = draw(st.integers(1, 70))
        c["d"] = c["shape"][0] * c["shape"][1]
    else:
        c["d"] = draw(st.sampled_from([300, 3000, 20000, 70000, 150000])) + draw(st.integers(0, 99))
        c["groups"] = draw(st.integers(1, 400))
    return c


def vector(case):
    rng = np.random.RandomState(case["seed"])
    if "shape" in case:
        m, n = case["shape"]
        k = min(case["rank"], m, n)
        v = (rng.randn(m, k) @ rng.randn(k, n) / np.sqrt(k)).ravel()
    else:
        v = rng.randn(case["d"])
    if case["ties"] and "shape" not in case:
        v = np.round(v, 1)
    v *= case["scale"]
    p = {"kind": case["kind"]}
    if "radius" in case and case["kind"] in gens.CONSTRAINTS:
        p["radius"] = case["radius"] * case["scale"]
    else:
        p["lam"] = case["lam"] * case["scale"] * (np.sqrt(min(case["shape"])) if "shape" in case else 1)
    if "shape" in case:
        p["shape"] = case["shape"]
    if case["kind"] == "group":
        cuts = np.unique(np.concatenate([[0], rng.choice(case["d"] - 1, min(case["groups"], case["d"] - 1), replace=False) + 1]))
        p["groups"] = [list(range(a, b)) for a, b in zip(cuts, cuts[1:])]
        p["lam"] *= np.sqrt(case["d"] / case["groups"])
    return p, v


def check(case, t):
    p, v = vector(case)
    pen, step, s = gens.build_penalty(p), case["t"], case["scale"]
    keep = v.copy()
    x = arr(pen.prox(v, step), v.shape, "prox")
    ensure(np.array_equal(v, keep), "prox changed its argument")
    want = refs.prox(p, v, step)
    tol = 1e-9 * (np.abs(v).max() + s)
    err = np.abs(x - want).max()
    ensure(err <= tol, "prox of %s on %d numbers is off by %g", case["kind"], v.size, err)
    if "radius" in p:
        ensure(refs.infeasibility(p, x) <= 1e-8 * p["radius"] + 1e-13 * np.abs(v).sum(), "projection onto %s of %d numbers is infeasible by %g",
               case["kind"], v.size, refs.infeasibility(p, x))
    elif callable(pen):
        a, b = float(pen(v)), refs.pen_value(p, v)
        ensure(abs(a - b) <= 1e-10 * abs(b), "value of %s on %d numbers is %r, expected %r", case["kind"], v.size, a, b)
    t.hit(np.any(x) and np.any(x != v), case["kind"])
    t.label("10^%d" % np.log10(v.size))


def check_lmo(case, t):
    p, u = vector(case)
    con, r = gens.build_penalty(p), p["radius"]
    rng = np.random.RandomState(case["seed"] + 1)
    d = u.size
    x = np.zeros(d)
    x[rng.choice(d, 5, replace=False)] = r / 5
    out = con.lmo(u, x)
    s = x + arr(out[0], (d,), "update direction")
    best = u.max() if p["kind"] == "simplex" else np.abs(u).max()
    ensure(abs(u @ s - r * best) <= 1e-9 * r * best, "vertex has <u,s> = %r, the maximum is %r", u @ s, r * best)
    j = np.argmax(np.abs(s))
    rest = np.delete(s, j)
    ensure(np.abs(rest).max() <= 1e-9 * r and abs(abs(s[j]) - r) <= 1e-9 * r, "not a vertex of %s", p)
    if p["kind"] == "l1ball":
        # many active vertices
        k = min(d, 500)
        idx, sgn, w = rng.choice(d, k, replace=False), rng.choice([-1.0, 1.0], k), rng.rand(k) + 0.1
        w /= w.sum()
        active, name = {}, {}
        for i, e, a in zip(idx, sgn, w):
            q = np.zeros(d)
            q[i] = e
            rep = con.lmo(q, np.zeros(d))[1]
            ensure(rep not in active, "two vertices share the name %r", rep)
            active[rep], name[rep] = float(a), (i, e)
        direction, fw, away, mx = con.lmo_pairwise(u, x, active)
        ensure(away in name and mx == active[away], "away vertex %r with maximum step %r", away, mx)
        i, e = name[away]
        ensure(e * u[i] <= (sgn * u[idx]).min() + 1e-12 * best, "away vertex is not the least correlated one")
        q = np.array(direction)
        q[i] += r * e
        ensure(abs(u @ q - r * best) <= 1e-9 * r * best and abs(np.abs(q).sum() - r) <= 1e-9 * r, "forward vertex is wrong")
    t.hit(True, case["kind"])
    t.label("10^%d" % np.log10(d))
