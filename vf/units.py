"""Proximal operators and projections in other units."""
import numpy as np
from hypothesis import strategies as st

from . import gens
from .core import arr, ensure

KINDS = ["l1", "group", "fused", "tracenorm", "tv2d"] + gens.CONSTRAINTS
RULE = "the operator moves the point, and not to zero"

@st.composite
def case(draw, kinds=KINDS):
    d = draw(st.integers(1, 9))
    c = draw(gens.penalty_case(d, list(kinds)))
    v = draw(st.one_of(gens.vec(d), gens.sparse_vec(d)))
    return {"pen": c, "v": v, "t": draw(st.sampled_from([0.1, 0.5, 1.0, 3.0])), "k": draw(st.integers(-80, 60).filter(bool)),
            "half": draw(st.integers(1, 2))}


def check(case, t):
    """operators commute with a change of units, and values with them"""
    c, u, v, step = case["pen"], 2.0 ** case["k"], np.array(case["v"]), case["t"]
    base = gens.build_penalty(dict(c, tol=1e-9, max_iter=20000))
    if "radius" in c:
        other = gens.build_penalty(dict(c, radius=u * c["radius"]))
    else:
        other = gens.build_penalty(dict(c, tol=1e-9 * u, max_iter=20000))
    s = np.abs(v).max() + 1.0
    tol = (1e-7 if c["kind"] == "tv2d" else 1e-11) * s
    p = arr(base.prox(v.copy(), step), v.shape, "prox")
    q = arr(other.prox(u * v, u * step), v.shape, "prox") / u
    ensure(np.abs(q - p).max() <= tol, "prox of %s in units of 2^%d is %s instead of %s", c, case["k"], q.tolist(), p.tolist())
    if "radius" not in c:
        a, b = float(base(v)), float(other(u * v)) / u
        ensure(abs(a - b) <= 1e-11 * abs(a), "%s in units of 2^%d is %r instead of %r", c, case["k"], b, a)
    if c["kind"] in ("l1", "group", "fused"):
        def block(x, step):
            pen = base
            if c["kind"] == "fused":
                f, B = pen.prox_1_factory(x.size) if case["half"] == 1 else pen.prox_2_factory(x.size)
            else:
                f, B = pen.prox_factory(x.size)
            nb = B.shape[0]
            f(x, 0, np.arange(nb), np.array([0, nb]), np.linspace(1, 2, nb), step)
            return x
        p = block(v.copy(), step)
        q = block(u * v, u * step) / u
        ensure(np.abs(q - p).max() <= tol, "sparse prox of %s in units of 2^%d is %s instead of %s", c, case["k"],
               q.tolist(), p.tolist())
    t.hit(np.any(p != v) and np.any(p), c["kind"])
