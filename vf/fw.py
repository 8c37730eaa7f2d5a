"""Feasible sets with linear minimization oracles, and a recording oracle."""
import numpy as np
from hypothesis import strategies as st

from . import gens, refs
from .core import arr, close, ensure, num


@st.composite
def set_case(draw, d, kinds=("l1ball", "simplex", "traceball", "hull")):
    """a feasible set; `hull` is the convex hull of given points"""
    kind = draw(st.sampled_from(list(kinds)))
    if kind != "hull":
        return draw(gens.penalty_case(d, [kind]))
    k = draw(st.integers(2, 6))
    pts = draw(st.lists(st.lists(st.integers(-3, 3).map(float), min_size=d, max_size=d),
                        min_size=k, max_size=k, unique_by=tuple))
    return {"kind": "hull", "points": pts}


class Hull:
    """oracles of a convex hull; vertices are named by their index"""

    def __init__(self, points):
        self.P = np.array(points)

    def lmo(self, u, x, active_set=None):
        i = int(np.argmax(self.P @ u))
        return self.P[i] - x, i, None, 1.0

    def lmo_pairwise(self, u, x, active_set):
        i = int(np.argmax(self.P @ u))
        away = min(active_set, key=lambda k: self.P[k] @ u)
        return self.P[i] - self.P[away], i, away, active_set[away]


class Simplex:
    """pairwise oracle of the simplex"""

    def __init__(self, r, d):
        self.h = Hull(r * np.eye(d))
        self.lmo_pairwise = self.h.lmo_pairwise


def build(c, pairwise=False, d=None):
    if c["kind"] == "hull":
        h = Hull(c["points"])
    elif c["kind"] == "simplex" and pairwise:
        h = Simplex(c["radius"], d)
    else:
        h = gens.build_penalty(c)
    return h.lmo_pairwise if pairwise else h.lmo


def support(c, u):
    if c["kind"] == "hull":
        return float(np.max(np.array(c["points"]) @ u))
    return refs.support(c, u)


def diameter(c):
    """l2 diameter of the set"""
    if c["kind"] == "hull":
        P = np.array(c["points"])
        return float(max(np.linalg.norm(p - q) for p in P for q in P))
    return c["radius"] * (np.sqrt(2) if c["kind"] == "simplex" else 2.0)


def radius(c):
    return float(np.abs(np.array(c["points"])).max()) if c["kind"] == "hull" else c["radius"]


def vertex(c, d, i):
    """the i-th vertex, and its name in copt's oracle when it has one"""
    if c["kind"] == "hull":
        i %= len(c["points"])
        return np.array(c["points"][i]), i
    v = np.zeros(d)
    j = i % d
    if c["kind"] == "traceball":
        v[0] = c["radius"]
        return v, 0
    s = -1.0 if c["kind"] == "l1ball" and (i // d) % 2 else 1.0
    v[j] = s * c["radius"]
    return v, (s, j) if c["kind"] == "l1ball" else j


@st.composite
def start(draw, c, d):
    """weights of a few vertices: a feasible starting point"""
    k = draw(st.integers(1, 3))
    return [[draw(st.integers(0, 11)), draw(st.integers(1, 4))] for _ in range(k)]


def start_point(c, d, combo):
    total = float(sum(w for _, w in combo))
    return sum(w / total * vertex(c, d, i)[0] for i, w in combo)


def infeasibility(c, x):
    """0 when feasible; not decided for hulls (see Recorder)"""
    return 0.0 if c["kind"] == "hull" else refs.infeasibility(c, x)


class Recorder:
    """passes calls on to an oracle and keeps what it was asked and answered"""

    def __init__(self, oracle):
        self.oracle = oracle
        self.calls = []      # (u, x, direction, max step, fw name, away name, active set)

    def __call__(self, u, x, active_set=None):
        out = self.oracle(u, x, active_set)
        self.calls.append((np.array(u, dtype=float), np.array(x, dtype=float),
                           np.array(out[0], dtype=float), float(out[3]), out[1], out[2],
                           None if active_set is None else dict(active_set)))
        return out


def steps_between(calls, x_final, scale, what):
    """step lengths taken: every iterate is the previous one plus a fraction of
    the maximum step along the direction the oracle returned"""
    out = []
    pts = [c[1] for c in calls] + [x_final]
    for k, c in enumerate(calls):
        d, incr = c[2], pts[k + 1] - c[1]
        n2 = d @ d
        if n2 == 0:
            ensure(np.max(np.abs(incr)) <= 1e-12 * scale, "%s moved along a null direction", what)
            out.append(0.0)
            continue
        g = (incr @ d) / n2
        ensure(np.max(np.abs(incr - g * d)) <= 1e-9 * scale,
               "%s: iterate %d is not on the segment given by the oracle", what, k + 1)
        ensure(-1e-9 <= g * np.sqrt(n2) / scale and g <= c[3] * (1 + 1e-9) + 1e-12,
               "%s: step %d has length %r, allowed up to %r", what, k, g, c[3])
        out.append(g)
    return out


def check_active(active, vertices, x, scale, what, strict=True):
    """the active set is a convex combination of vertices giving x; with null
    steps a vertex may enter with no weight"""
    ensure(active is not None and len(active) > 0, "%s: no active set", what)
    w = np.array([num(v) for v in active.values()])
    ensure(np.all(w > 0) if strict else np.all(w >= 0), "%s: weights %s are not all positive", what, w.tolist())
    ensure(abs(w.sum() - 1) <= 1e-9, "%s: weights add up to %r", what, w.sum())
    for k in active:
        ensure(k in vertices, "%s: unknown vertex %r in the active set", what, k)
    p = sum(v * vertices[k] for k, v in active.items())
    close(p, x, 1e-8 * scale, "%s: combination of the active set and the iterate", what)
