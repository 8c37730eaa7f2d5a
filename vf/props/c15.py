"""SAGA and SVRG reach the minimizer of the regularized finite sum."""
import numpy as np
from hypothesis import strategies as st
from scipy import sparse

from .. import gens, refs, solvers
from ..core import Sub, close, ensure, num

RULE = ("losses with ridge on dense and sparse data, no penalty, l1 and group penalties with gaps "
        "between groups, steps up to 1/(3L), any start; the samples visited are read off the calls "
        "to the derivative.")


@st.composite
def case(draw, kinds=("none", "l1", "group"), n_max=7, d_max=5):
    c = draw(gens.loss_case(n_max=n_max, d_max=d_max, zero_cols=draw(st.integers(0, 3)) == 0))
    c["ratio"] = draw(st.sampled_from([0.1, 0.3, 1.0]))
    c["pen"] = draw(gens.penalty_case(c["d"], kinds))
    c["x0"] = draw(st.one_of(st.just([0.0] * c["d"]), gens.vec(c["d"])))
    c["fmt"] = draw(st.sampled_from(gens.FORMATS + ["dup"]))
    c["solver"] = draw(st.sampled_from(["saga", "svrg"]))
    c["h"] = draw(st.sampled_from([1.0, 0.5]))
    return c


def block_sizes(c):
    """blocks of features the penalty ties together"""
    d = c["d"]
    if c["pen"]["kind"] == "group":
        inside = {j for g in c["pen"]["groups"] for j in g}
        return [list(g) for g in c["pen"]["groups"]] + [[j] for j in range(d) if j not in inside]
    return [[j] for j in range(d)]


def step_size(case, blocks=None):
    """1/(3L) for the sparse estimator: the ridge is weighted by how rarely a
    block is visited"""
    A = np.array(case["A"])
    n = len(A)
    h = 0.25 if case["loss"] == "log" else 1.0
    dmax = 1.0
    for b in blocks or block_sizes(case):
        k = int(np.any(A[:, b] != 0, axis=1).sum())
        if k:
            dmax = max(dmax, n / k)
    return 1.0 / (3 * (h * (A * A).sum(1).max() + gens.alpha_of(case) * dmax))


def derivative(case):
    """scalar derivative of the loss, as the user passes it"""
    if case["loss"] == "huber":
        delta = case["delta"]
        return lambda p, b: np.clip(p - b, -delta, delta)
    return gens.build_loss(dict(case, alpha=0.0)).partial_deriv


def sparse_prox(pen, d):
    p = gens.build_penalty(pen)
    return None if p is None else p.prox_factory(d)


def run(case, x0=None, tol=1e-11, max_iter=4000, callback=None, deriv=None, A=None, b=None):
    import copt
    solver = copt.minimize_saga if case["solver"] == "saga" else copt.minimize_svrg
    d = case["d"]
    x0 = np.array(case["x0"]) if x0 is None else x0
    A = gens.to_format(case["A"], case["fmt"]) if A is None else A
    return solver(deriv or derivative(case), A, np.array(case["b"]) if b is None else b, x0,
                  case["h"] * step_size(case), alpha=gens.alpha_of(case), prox=sparse_prox(case["pen"], d), tol=tol,
                  max_iter=max_iter, callback=callback)


class Visits:
    """derivative that knows which sample it is called for: the labels handed
    to the solver are indices"""

    def __init__(self, case):
        self.f, self.b = derivative(case), np.array(case["b"])
        self.epochs, self.xs = [[]], []
        self.index = np.arange(len(self.b), dtype=float)

    def __call__(self, p, i):
        i = np.asarray(i)
        self.epochs[-1].append((int(i[0]), float(np.asarray(p)[0])))
        return self.f(p, self.b[i.astype(int)])

    def callback(self, dl):
        self.xs.append(np.array(dl["x"], dtype=float))
        self.epochs.append([])


def check(case, t):
    what = case["solver"]
    x0 = np.array(case["x0"])
    v = Visits(case)
    res = run(case, x0, callback=v.callback, deriv=v, b=v.index)
    ensure(np.array_equal(x0, case["x0"]), "%s changed x0", what)
    x = solvers.solution(res, (case["d"],))
    ensure(bool(res.success), "%s did not converge in 4000 passes", what)
    xs = refs.solve(case, case["pen"])
    solvers.check_minimizer(case, None, x, 1e-6 * (1 + np.abs(xs).max()), what, xs)
    # a pass visits every sample equally often
    n = case["n"]
    ensure(not v.epochs[0] and not v.epochs[-1], "%s: derivatives before the first or after the last pass", what)
    for k, e in enumerate(v.epochs[1:-1]):
        counts = np.bincount([i for i, _ in e], minlength=n)
        ensure(len(counts) == n and counts.min() == counts.max() > 0, "%s: pass %d visits the samples %s times",
               what, k, counts.tolist())
    t.hit(res.nit > 3, case["solver"] + " " + case["pen"]["kind"])
    t.label("empty column" if not np.all(np.any(case["A"], axis=0)) else "")
    t.label(case["loss"], case["fmt"], "ties" if n > 1 else "one sample")
    follow(case, v, t)


def follow(case, v, t, passes=11):
    n = case["n"]
    if case["solver"] == "saga" and all(len(e) == n for e in v.epochs[1:-1]):
        trajectory(case, v, t, passes)
    if case["solver"] == "svrg":
        for e in v.epochs[1:-1]:
            # the full gradient, then each sample at the iterate and at the snapshot
            pairs = e[-2 * n:]
            if len(pairs) != 2 * n or any(pairs[2 * j][0] != pairs[2 * j + 1][0] for j in range(n)):
                return
        trajectory(case, v, t, passes)


def trajectory(case, v, t, passes=11):
    """the published sparse update (Pedregosa et al., 2017), in numpy; for
    SVRG, the memory is the gradients at the start of the pass"""
    svrg = case["solver"] == "svrg"
    A, d, n = np.array(case["A"]), case["d"], case["n"]
    blocks = block_sizes(case)
    alpha, step = gens.alpha_of(case), case["h"] * step_size(case)
    # explicitly stored zeros belong to the support
    S = sparse.csr_matrix(gens.to_format(case["A"], case["fmt"]))
    rows = [set(S.indices[S.indptr[i]:S.indptr[i + 1]].tolist()) for i in range(n)]
    touch = np.array([[bool(rows[i] & set(b)) for b in blocks] for i in range(n)])
    used = sorted(j for k, b in enumerate(blocks) if touch[:, k].any() for j in b)
    weight = [n / max(touch[:, k].sum(), 1) for k in range(len(blocks))]
    x, mem, avg = np.array(case["x0"]), np.zeros(n), np.zeros(d)
    pen, kind = case["pen"], case["pen"]["kind"]
    what = case["solver"]
    for k, e in enumerate(v.epochs[1:min(len(v.epochs) - 1, passes + 1)]):
        if svrg:
            mem = np.array([float(v.f(np.array([a @ x]), v.b[i:i + 1])[0]) for i, a in enumerate(A)])
            avg = A.T @ mem / n
            e = [(e[2 * j - 2 * n][0], None) for j in range(n)]
        for i, p in e:
            ensure(p is None or abs(p - A[i] @ x) <= 1e-7 * (1 + np.abs(x).max()),
                   "saga: prediction of sample %d in pass %d is %r, expected %r", i, k, p, A[i] @ x)
            g = float(v.f(np.array([A[i] @ x]), v.b[i:i + 1])[0])
            diff = (g - mem[i]) * A[i]
            y = x.copy()
            for h, b in enumerate(blocks):
                if touch[i, h]:
                    y[b] = x[b] - step * (diff[b] + weight[h] * (avg[b] + alpha * x[b]))
                    if kind == "l1":
                        y[b] = refs.prox(pen, y[b], step * weight[h])
                    elif kind == "group" and b in pen["groups"]:
                        y[b] = refs.prox(dict(pen, groups=[list(range(len(b)))]), y[b], step * weight[h])
            x = y
            if not svrg:
                avg = avg + diff / n
                mem[i] = g
        # features no sample has are updated at the solver's own pace
        close(v.xs[k + 1][used], x[used], 1e-7 * (1 + np.abs(x).max()), "%s: iterate after pass %d", what, k)
    t.label("trajectory " + what)


def check_fixed(case, t):
    """the minimizer is a fixed point of SVRG: its estimates have no variance there"""
    case = dict(case, solver="svrg")
    xs = refs.solve(case, case["pen"])
    seen = []
    res = run(case, xs.copy(), tol=0.0, max_iter=5, callback=lambda dl: seen.append(np.array(dl["x"])))
    s = 1 + np.abs(xs).max()
    for k, x in enumerate(seen + [solvers.solution(res, (case["d"],))]):
        close(x, xs, 1e-7 * s, "svrg moved away from the minimizer (%d)", k)
    t.hit(np.any(xs), case["pen"]["kind"])


@st.composite
def spread_case(draw, n_max=40, d_max=40):
    """few features per sample, groups which reach across many samples"""
    n, d = draw(st.integers(4, n_max)), draw(st.integers(4, d_max))
    return {"n": n, "d": d, "per": draw(st.integers(1, 2)), "groups": draw(st.integers(1, 3)),
            "trailing": draw(st.integers(0, 2)), "gamma": draw(st.sampled_from([1e-3, 0.03, 0.3])),
            "ratio": draw(st.sampled_from([0.1, 0.3, 1.0])), "seed": draw(st.integers(0, 10 ** 6)),
            "loss": draw(st.sampled_from(["square", "log"])), "fmt": draw(st.sampled_from(gens.FORMATS)),
            "solver": draw(st.sampled_from(["saga", "svrg"])), "h": draw(st.sampled_from([1.0, 0.5]))}


def spread(case):
    """the full case, and sorted cuts between groups"""
    rng = np.random.RandomState(case["seed"])
    n, d = case["n"], case["d"]
    A = np.zeros((n, d))
    for i in range(n):
        cols = rng.choice(d, min(d, case["per"]), replace=False)
        cols[0] = i % d
        A[i, cols] = np.round(rng.randn(len(cols)), 2)
    for j in np.flatnonzero(~A.any(axis=0)):
        A[rng.randint(n), j] = 1.0
    b = np.round(A @ rng.randn(d) + 0.1 * rng.randn(n), 2)
    k = d - min(case["trailing"], d - case["groups"])
    cuts = [0] + sorted(rng.choice(np.arange(1, k), case["groups"] - 1, replace=False).tolist()) + [k]
    lam = case["gamma"] * float((A * A).sum(1).max()) / n
    pen = {"kind": "group", "groups": [list(range(u, w)) for u, w in zip(cuts, cuts[1:])], "lam": lam}
    b = ((b > 0) * 1.0 if case["loss"] == "log" else b).tolist()
    return dict(case, A=A.tolist(), b=b, pen=pen, x0=[0.0] * d), max(np.diff(cuts))


def check_spread(case, t):
    case, widest = spread(case)
    check(case, t)
    t.label("wide group" if widest >= 10 else "")


@st.composite
def wide_case(draw):
    return {"d": draw(st.sampled_from([33000, 66000])) + draw(st.integers(0, 999)), "n": draw(st.integers(1, 4)),
            "k": draw(st.integers(1, 6)), "seed": draw(st.integers(0, 10 ** 6)),
            "solver": draw(st.sampled_from(["saga", "svrg"]))}


def check_wide(case, t):
    """more features than 16-bit indices can count, most of them without data"""
    import copt
    rng = np.random.RandomState(case["seed"])
    d, n, k = case["d"], case["n"], case["k"]
    cols = np.sort(np.concatenate([[d - 1], rng.choice(d - 1, k - 1, replace=False)]))
    B = rng.randn(n, k) * (rng.rand(n, k) < 0.7)
    B[rng.randint(n), :] = 1.0
    r, c = np.nonzero(B)
    A = sparse.csr_matrix((B[r, c], (r, cols[c])), shape=(n, d))
    b, alpha = rng.randn(n), float((B * B).sum(1).max())
    weight = n / np.count_nonzero(B, axis=0).min()
    x0 = np.zeros(d)
    x0[rng.choice(d, 5)] = 1.0
    solver = copt.minimize_saga if case["solver"] == "saga" else copt.minimize_svrg
    np.random.seed(case["seed"])
    res = solver(lambda p, y: p - y, A, b, x0, 1.0 / (3 * (alpha + alpha * weight)), alpha=alpha, tol=1e-11, max_iter=1500)
    ensure(bool(res.success), "%s did not converge in 1500 passes", case["solver"])
    want = np.zeros(d)
    want[cols] = np.linalg.solve(B.T @ B / n + alpha * np.eye(k), B.T @ b / n)
    close(solvers.solution(res, (d,)), want, 1e-7, "%s with %d features", case["solver"], d)
    t.hit(res.nit > 3, case["solver"])


@st.composite
def many_case(draw):
    return {"n": draw(st.sampled_from([33000, 40000, 66000])) + draw(st.integers(0, 999)), "d": draw(st.integers(1, 3)),
            "seed": draw(st.integers(0, 10 ** 6)), "solver": draw(st.sampled_from(["saga", "svrg"])), "ratio": 0.3, "h": 1.0,
            "loss": draw(st.sampled_from(["square", "log"])), "fmt": draw(st.sampled_from(["dense", "csr"])),
            "kind": draw(st.sampled_from(["l1", "group"]))}


def many(case):
    """more samples than 16-bit indices can count"""
    rng = np.random.RandomState(case["seed"])
    n, d = case["n"], case["d"]
    A = np.round(rng.randn(n, d) * (rng.rand(n, d) < 0.6), 1)
    b = rng.randint(0, 2, n) * 1.0 if case["loss"] == "log" else np.round(A @ np.ones(d) + rng.randn(n), 1)
    return dict(case, A=A, b=b, x0=[1.0] * d, pen={"kind": case["kind"], "lam": 0.05, "groups": [list(range(d))]})


def check_many(case, t):
    case = many(case)
    v, n = Visits(case), case["n"]
    np.random.seed(case["seed"])
    run(case, max_iter=1, tol=0.0, callback=v.callback, deriv=v, b=v.index)
    for e in v.epochs[1:-1]:
        counts = np.bincount([i for i, _ in e], minlength=n)
        ensure(len(counts) == n and counts.min() == counts.max() > 0, "%s: a pass visits %d of %d samples", case["solver"],
               np.count_nonzero(counts), n)
    if all(len(e) == (n if case["solver"] == "saga" else 3 * n) for e in v.epochs[1:-1]):
        trajectory(case, v, t)
    t.hit(len(v.epochs) > 2, case["solver"])


@st.composite
def rare_case(draw):
    d = draw(st.integers(2, 5))
    return {"n": draw(st.integers(60, 700)), "d": d, "seed": draw(st.integers(0, 10 ** 6)),
            "counts": [draw(st.sampled_from([1, 1, 2, 3, 7, 30])) for _ in range(d - 1)], "kind": draw(st.sampled_from(["l1", "group", "none"])),
            "solver": draw(st.sampled_from(["saga", "svrg"])), "h": draw(st.sampled_from([1.0, 0.5])),
            "loss": draw(st.sampled_from(["square", "log"])), "fmt": draw(st.sampled_from(gens.FORMATS)),
            "weight": draw(st.sampled_from([0.3, 1.0, 3.0])), "max_iter": draw(st.integers(2, 6))}


def rare(case):
    """features which a handful of the samples have"""
    rng = np.random.RandomState(case["seed"])
    n, d = case["n"], case["d"]
    A = np.zeros((n, d))
    A[:, 0] = np.round(rng.randn(n), 1) + 0.05
    for j, k in enumerate(case["counts"]):
        A[rng.choice(n, k, replace=False), j + 1] = np.round(3 * rng.rand(k) + 0.3, 1) * rng.choice([-1, 1], k)
    order = rng.permutation(d)
    A = A[:, order]
    b = np.round(A @ rng.randn(d) + 0.3 * rng.randn(n), 1)
    if case["loss"] == "log":
        b = (b > 0) * 1.0
    # the ridge of the rarest feature is as steep as the loss
    alpha = case["weight"] * float((A * A).sum(1).max()) / n
    cut = 1 + case["seed"] % d
    groups = [list(range(cut))] + ([list(range(cut, d))] if cut < d else [])
    return dict(case, A=A.tolist(), b=b.tolist(), alpha=alpha, x0=np.round(2 * rng.randn(d), 1).tolist(),
                pen={"kind": case["kind"], "lam": 0.01 * alpha, "groups": groups})


def check_rare(case, t):
    case = rare(case)
    v, n, svrg = Visits(case), case["n"], case["solver"] == "svrg"
    np.random.seed(case["seed"])
    run(case, max_iter=case["max_iter"], tol=0.0, callback=v.callback, deriv=v, b=v.index)
    if all(len(e) == (3 * n if svrg else n) for e in v.epochs[1:-1]):
        trajectory(case, v, t)
    t.hit(len(v.epochs) > 2, case["solver"])


@st.composite
def slow_case(draw, strategy=case(n_max=5, d_max=4)):
    """small steps: many passes before the end"""
    c = draw(strategy)
    c["h"] = draw(st.sampled_from([0.1, 0.03, 0.01]))
    c["passes"] = draw(st.sampled_from([60, 150, 300]))
    return c


def check_slow(case, t):
    v = Visits(case)
    res = run(case, callback=v.callback, deriv=v, b=v.index, max_iter=case["passes"])
    x = solvers.solution(res, (case["d"],))
    follow(case, v, t, case["passes"])
    t.hit(np.any(x != case["x0"]) and res.nit > 50, case["solver"])


SUBS = [
    Sub("converges", case(), check, 1200, rule="more than three passes were needed"),
    Sub("fixed_point", case(), check_fixed, 500, rule="the minimizer is not zero"),
    Sub("large", gens.large(case(), 40, 20), check, 60, rule="as converges"),
    Sub("spread", spread_case(), check_spread, 120, rule="as converges",
        pinned=[{"n": 30, "d": 30, "per": 1, "groups": 1, "trailing": 0, "gamma": 1e-3, "ratio": 0.3, "seed": 0, "loss": "square",
                 "fmt": "csr", "solver": sv, "h": 1.0} for sv in ("svrg", "saga")]),
    Sub("wide", wide_case(), check_wide, 24, thorough=400, rule="more than three passes were needed"),
    Sub("rare", rare_case(), check_rare, 60, rule="two passes or more"),
    Sub("slow", slow_case(), check_slow, 120, rule="more than 50 passes"),
    Sub("many", many_case(), check_many, 8, thorough=64, rule="a pass or more", shards=8),
]
