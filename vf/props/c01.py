"""Penalty values and proximal operators are exact."""
import numpy as np
from hypothesis import strategies as st

from .. import gens, huge, refs, units
from ..core import Sub, arr, close, ensure, num

RULE = ("vectors with ties, exact zeros and magnitudes 1e-8..1e9, penalty weights "
        "and steps over six decades, all factorizations d = r*c as matrix shapes, "
        "groups with unpenalized gaps.")
KINDS = ["l1", "group", "tracenorm"]


@st.composite
def case(draw):
    d = draw(st.integers(1, 9))
    c = draw(gens.penalty_case(d, KINDS))
    c["lam"] = draw(st.one_of(gens.positive, st.just(0.0)))
    kinds = gens.KINDS
    v = draw(st.one_of(gens.vec(d, kinds), gens.sparse_vec(d, kinds)))
    t = draw(gens.positive)
    # steer towards the threshold, where the branches meet
    if draw(st.integers(0, 4)) == 0 and c["lam"] > 0:
        m = max(abs(a) for a in v)
        if m > 0:
            f = c["lam"] * t / m * draw(st.sampled_from([0.5, 0.999, 1.0, 1.001, 2.0]))
            v = [a * f for a in v]
    return {"pen": c, "v": v, "t": t}


def scale(c, v, t):
    return max(np.max(np.abs(v)), 1e-290) * np.sqrt(v.size) + 1e-3 * t * c["lam"]


def check_prox(case, t):
    c, step = case["pen"], case["t"]
    v = np.array(case["v"], dtype=float)
    keep = v.copy()
    pen = gens.build_penalty(c)
    p = arr(pen.prox(v, step), v.shape, "prox")
    ensure(np.array_equal(v, keep), "prox changed its argument")
    s = scale(c, v, step)
    close(p, refs.prox(c, v, step), 1e-9 * s, "prox of %s", c)
    # p minimizes pen + |.-v|^2/(2t): moving to nearby points never helps
    def obj(x):
        return refs.pen_value(c, x) * step + 0.5 * np.sum((x - v) ** 2)
    best = obj(p)
    for q in (v, np.zeros_like(v), 0.5 * p, 0.5 * (p + v)):
        ensure(best <= obj(q) + 1e-9 * (s * s + abs(best)), "prox is not a minimizer")
    # the same operator again, and nonexpansiveness against a shifted point
    w = v[::-1].copy()
    pw = arr(pen.prox(w, step), v.shape, "prox")
    ensure(np.linalg.norm(p - pw) <= np.linalg.norm(v - w) + 1e-9 * s,
           "prox is expansive")
    changed = np.max(np.abs(p - v)) > 1e-9 * s
    t.hit(changed and np.any(p != 0), c["kind"])
    t.label("shrunk to zero" if not np.any(p) else "", "identity" if not changed else "")


def check_value(case, t):
    c = case["pen"]
    v = np.array(case["v"], dtype=float)
    keep = v.copy()
    got = num(gens.build_penalty(c)(v), "penalty value")
    ensure(np.array_equal(v, keep), "evaluating the penalty changed its argument")
    want = refs.pen_value(c, v)
    ensure(abs(got - want) <= 1e-10 * (abs(want) + c["lam"] * np.max(np.abs(v))),
           "value of %s at %s is %r, expected %r", c, v.tolist(), got, want)
    t.hit(want > 0, c["kind"])


@st.composite
def long_case(draw):
    """longer vectors, drawn by repetition and rotation of a short one"""
    base = draw(gens.vec(draw(st.integers(3, 12)), gens.MILD))
    reps = draw(st.integers(2, 12))
    v = [a * (1 + 0.1 * i) for i in range(reps) for a in base]
    d = len(v)
    c = draw(gens.penalty_case(d, KINDS))
    return {"pen": c, "v": v, "t": draw(gens.mild_positive)}


SUBS = [
    Sub("units", units.case(["l1", "group", "tracenorm"]), units.check, 500, rule=units.RULE),
    Sub("prox", case(), check_prox, 4000, rule="the prox moved the point, and not all the way to zero"),
    Sub("prox_long", long_case(), check_prox, 500, rule="as prox, up to 144 features"),
    Sub("value", case(), check_value, 2500, rule="the penalty is positive"),
    Sub("huge", huge.case(["l1", "group", "tracenorm"]), huge.check, 60, rule=huge.RULE),
]
