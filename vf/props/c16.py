"""Variance-reduced three-operator splitting reaches the minimizer of a sum of
a finite sum and two penalties."""
import numpy as np
from hypothesis import strategies as st
from scipy import sparse

from .. import gens, refs, solvers
from ..core import Sub, Reject, close, ensure
from . import c15

RULE = ("losses with ridge, every pair of l1, group and fused-lasso halves or no penalty, on dense "
        "and sparse data, steps up to 1/(3L).")


@st.composite
def case(draw):
    c = draw(gens.loss_case(n_max=6, d_max=5))
    d = c["d"]
    c["ratio"] = draw(st.sampled_from([0.3, 1.0]))
    kind = draw(st.sampled_from(["two", "two", "fused", "one"]))
    if kind == "fused":
        c["pens"] = [dict(draw(gens.penalty_case(d, ["fused"])), half=k) for k in (1, 2)]
        c["pens"][1]["lam"] = c["pens"][0]["lam"]
    else:
        c["pens"] = [draw(gens.penalty_case(d, ["l1", "group"] + (["none"] if kind == "one" else []))) for _ in (1, 2)]
    c["x0"] = draw(st.one_of(st.just([0.0] * d), gens.vec(d)))
    c["fmt"] = draw(st.sampled_from(gens.FORMATS + ["dup"]))
    c["h"] = draw(st.sampled_from([1.0, 0.5]))
    c["solver"] = "vrtos"
    return c


def total(case):
    """the two penalties as terms for the reference solver"""
    p = case["pens"]
    if p[0]["kind"] == "fused":
        return [{"kind": "fused", "lam": p[0]["lam"]}, {"kind": "none"}]
    return p


def blocks_of(p, d):
    if p["kind"] == "group":
        inside = {j for g in p["groups"] for j in g}
        return [list(g) for g in p["groups"]] + [[j] for j in range(d) if j not in inside]
    if p["kind"] == "fused":
        k = p["half"] - 1
        return ([[0]] if k else []) + [list(range(j, min(j + 2, d))) for j in range(k, d, 2)]
    return [[j] for j in range(d)]


def sparse_prox(p, d):
    pen = gens.build_penalty(p)
    if pen is None:
        return None
    if p["kind"] == "fused":
        return pen.prox_1_factory(d) if p["half"] == 1 else pen.prox_2_factory(d)
    return pen.prox_factory(d)


def run(case, x0=None, max_iter=600, callback=None, deriv=None, b=None, A=None, tol=0.0):
    from copt import minimize_vrtos
    d = case["d"]
    step = case["h"] * min(c15.step_size(case, blocks_of(p, d)) for p in case["pens"])
    return minimize_vrtos(deriv or c15.derivative(case), gens.to_format(case["A"], case["fmt"]) if A is None else A,
                          np.array(case["b"]) if b is None else b, np.array(case["x0"]) if x0 is None else x0, step,
                          prox_1=sparse_prox(case["pens"][0], d), prox_2=sparse_prox(case["pens"][1], d),
                          alpha=gens.alpha_of(case), max_iter=max_iter, callback=callback, tol=tol)


def check(case, t):
    x0 = np.array(case["x0"])
    v = c15.Visits(case)
    res = run(case, x0, callback=v.callback, deriv=v, b=v.index)
    ensure(np.array_equal(x0, case["x0"]), "vrtos changed x0")
    x = solvers.solution(res, (case["d"],))
    xs, z, r = refs.solve_sum(case, total(case))
    if r > 1e-9:
        raise Reject("reference")
    s = 1 + np.abs(xs).max()
    err = np.linalg.norm(x - xs)
    ensure(err <= 1e-2 * s, "vrtos: %s is %g away from the minimizer %s", x.tolist(), err, xs.tolist())
    slow = err > 1e-6 * s
    if slow:
        # fewer than one case in twenty: more passes must get closer
        y = solvers.solution(run(case, x0, max_iter=6000), (case["d"],))
        err2 = np.linalg.norm(y - xs)
        ensure(err2 <= max(1e-6 * s, 0.5 * err), "vrtos: %g away from the minimizer after 600 passes, %g after 6000",
               err, err2)
    n = case["n"]
    ensure(not v.epochs[-1] and len(v.epochs) > 2, "vrtos: derivatives after the last pass")
    for k, e in enumerate(v.epochs[1:-1]):
        counts = np.bincount([i for i, _ in e], minlength=n)
        ensure(len(counts) == n and counts.min() == counts.max() > 0, "vrtos: pass %d visits the samples %s times",
               k, counts.tolist())
    if all(len(e) == n for e in v.epochs[1:-1]):
        trajectory(case, v, t)
    t.hit(np.any(x0 != xs), "+".join(p["kind"] for p in case["pens"]))
    t.label(case["loss"], case["fmt"], "slow" if slow else "", "err 1e%d" % np.ceil(np.log10(err + 1e-16)) if slow else "")


def prox_block(p, b, v, step):
    if p["kind"] == "l1":
        return refs.prox(p, v, step)
    if p["kind"] == "group" and b in p["groups"]:
        return refs.prox(dict(p, groups=[list(range(len(b)))]), v, step)
    if p["kind"] == "fused" and len(b) == 2:
        return refs.prox({"kind": "fused", "lam": p["lam"]}, v, step)
    return v


def trajectory(case, v, t, passes=11):
    """the published sparse update (Pedregosa, Fatras and Casotto, 2018), in
    numpy, over the samples the solver visited; returns the distance between the
    copies of the iterate after each pass"""
    A, d, n = np.array(case["A"]), case["d"], case["n"]
    S = sparse.csr_matrix(gens.to_format(case["A"], case["fmt"]))
    rows = [set(S.indices[S.indptr[i]:S.indptr[i + 1]].tolist()) for i in range(n)]
    pens, alpha = case["pens"], gens.alpha_of(case)
    blocks = [blocks_of(p, d) for p in pens]
    step = case["h"] * min(c15.step_size(case, b) for b in blocks)
    touch = [np.array([[bool(rows[i] & set(b)) for b in bl] for i in range(n)]) for bl in blocks]
    if not all(u.any(axis=0).all() for u in touch):
        return None
    weight = [n / u.sum(axis=0) for u in touch]
    share = np.zeros((2, d))
    for k in (0, 1):
        for h, b in enumerate(blocks[k]):
            share[k, b] = 1 / weight[k][h]
    z, Y = np.array(case["x0"], dtype=float), np.zeros((2, d))
    X, gaps = np.array([z, z]), []
    mem, avg = np.zeros(n), np.zeros(d)
    for k, e in enumerate(v.epochs[:min(len(v.epochs) - 1, passes + 1)]):
        for i, p in e:
            ensure(abs(p - A[i] @ z) <= 1e-7 * (1 + np.abs(z).max()),
                   "vrtos: prediction of sample %d in pass %d is %r, expected %r", i, k, p, A[i] @ z)
            g = float(v.f(np.array([A[i] @ z]), v.b[i:i + 1])[0])
            diff, seen = (g - mem[i]) * A[i], np.zeros(d, dtype=bool)
            for m in (0, 1):
                for h, b in enumerate(blocks[m]):
                    if touch[m][i, h]:
                        w = weight[m][h]
                        u = 2 * z[b] - Y[m, b] - step * 0.5 * (diff[b] + w * (avg[b] + alpha * z[b]))
                        X[m, b] = prox_block(pens[m], b, u, step * w)
                        Y[m, b] += X[m, b] - z[b]
                        seen[b] = True
            mix = (share[0] * Y[0] + share[1] * Y[1]) / share.sum(0)
            z = np.where(seen, mix, z)
            avg = avg + diff / n
            mem[i] = g
        close(v.xs[k], z, 1e-7 * (1 + np.abs(z).max()), "vrtos: iterate after pass %d", k)
        gaps.append(np.linalg.norm(X[0] - z) + np.linalg.norm(X[1] - z))
    t.label("trajectory")
    return gaps


@st.composite
def spread_case(draw):
    return dict(draw(c15.spread_case(n_max=20, d_max=20)), solver="vrtos", order=draw(st.booleans()),
                other=draw(st.sampled_from(["l1", "none", "fused"])), ratio=draw(st.sampled_from([0.3, 1.0])))


def check_spread(case, t):
    """few features per sample, groups which reach across many samples"""
    case, widest = c15.spread(case)
    g = case["pen"]
    if case["other"] == "fused":
        pens = [{"kind": "fused", "lam": g["lam"], "half": k} for k in (1, 2)]
    else:
        pens = [g, {"kind": case["other"], "lam": 0.5 * g["lam"]}]
    check(dict(case, pens=pens[::-1] if case["order"] else pens), t)
    t.label("wide group" if widest >= 10 else "")


def check_many(case, t):
    """more samples than 16-bit indices can count"""
    case = c15.many(dict(case, solver="vrtos"))
    case["pens"] = [case["pen"], {"kind": "l1", "lam": 0.02}]
    v, n = c15.Visits(case), case["n"]
    np.random.seed(case["seed"])
    run(case, max_iter=1, callback=v.callback, deriv=v, b=v.index)
    for e in v.epochs[1:-1]:
        counts = np.bincount([i for i, _ in e], minlength=n)
        ensure(len(counts) == n and counts.min() == counts.max() > 0, "vrtos: a pass visits %d of %d samples",
               np.count_nonzero(counts), n)
    if all(len(e) == n for e in v.epochs[1:-1]):
        trajectory(case, v, t)
    t.hit(len(v.epochs) > 2)


def check_rare(case, t):
    """features which a handful of the samples have"""
    case = c15.rare(dict(case, solver="vrtos"))
    case["pens"] = [case["pen"], {"kind": "l1", "lam": case["pen"]["lam"]}][::1 if case["seed"] % 2 else -1]
    v, n = c15.Visits(case), case["n"]
    np.random.seed(case["seed"])
    run(case, max_iter=case["max_iter"], callback=v.callback, deriv=v, b=v.index)
    if all(len(e) == n for e in v.epochs[1:-1]):
        trajectory(case, v, t)
    t.hit(len(v.epochs) > 2)


def check_slow(case, t):
    """small steps: many passes before the end"""
    v = c15.Visits(case)
    run(case, max_iter=case["passes"], callback=v.callback, deriv=v, b=v.index)
    if all(len(e) == case["n"] for e in v.epochs[1:-1]):
        trajectory(case, v, t, case["passes"])
    t.hit(len(v.epochs) > 50)


SUBS = [
    Sub("converges", case(), check, 600, thorough=10000, rule="x0 is not the minimizer"),
    Sub("large", gens.large(case(), 40, 16), check, 24, thorough=600, rule="as converges"),
    Sub("spread", spread_case(), check_spread, 60, thorough=2000, rule="as converges"),
    Sub("rare", c15.rare_case(), check_rare, 60, rule="two passes or more"),
    Sub("many", c15.many_case(), check_many, 8, thorough=64, rule="a pass or more", shards=8),
    Sub("slow", c15.slow_case(case()), check_slow, 100, rule="more than 50 passes"),
]
