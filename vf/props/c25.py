"""The compiled kernels do what the interpreted ones do."""
import os

import numpy as np
from hypothesis import strategies as st
from scipy import sparse

from .. import gens, jit, refs, solvers
from ..core import Reject, Sub, arr, close, ensure, fail
from . import c06, c07, c08, c15, c16, c17

RULE = ("a second copy of copt with numba (index checks on, three threads): the cases and oracles of the interpreted "
        "kernels, derivatives at many points, and whole runs of the stochastic solvers.")
ASSUMPTIONS = ["numba is found in %s" % jit.EXTRA] if jit.available() else ["numba is missing: interpreted kernels"]


def compiled(check):
    def run(case, t):
        if not jit.available():
            t.label("numba is missing")
            return check(case, t)
        with jit.active():
            bad = jit.error()
            try:
                check(case, t)
            except (bad, IndexError, SystemError) as e:
                fail("compiled code: %s: %s", type(e).__name__, str(e)[:600])
    return run


def njit(f):
    return jit.njit(f) if jit.available() else f


# ------------------------------------------------------------ derivatives

_deriv = {}


def derivative(loss, delta=None):
    """compiled once per worker"""
    key = (loss, delta, jit.available())
    if key not in _deriv:
        import copt
        A = np.array([[1.0, 2.0], [0.5, -1.0]])
        if loss == "log":
            _deriv[key] = copt.loss.LogLoss(A, np.array([0.0, 1.0])).partial_deriv
        elif loss == "square":
            _deriv[key] = copt.loss.SquareLoss(A, np.array([0.0, 1.0])).partial_deriv
        else:
            _deriv[key] = njit(lambda p, y: np.minimum(np.maximum(p - y, -delta), delta))
    return _deriv[key]


@st.composite
def deriv_case(draw):
    n = draw(st.integers(1, 12))
    return {"loss": draw(st.sampled_from(["log", "square"])),
            "p": draw(st.lists(st.one_of(st.floats(-800, 800), st.sampled_from([0.0, -0.0, 1e-300, -1e-12, 36.0, -745.0])),
                               min_size=n, max_size=n)),
            "y": draw(st.lists(st.integers(0, 8).map(lambda k: k / 8.0), min_size=n, max_size=n)),
            "times": draw(st.sampled_from([1, 1, 5, 200]))}


def check_deriv(case, t):
    p, y = np.tile(np.array(case["p"]), case["times"]), np.tile(np.array(case["y"]), case["times"])
    keep = p.copy(), y.copy()
    got = arr(derivative(case["loss"])(p, y), p.shape, "derivative")
    q = p.astype(np.longdouble)
    want = q - y
    if case["loss"] == "log":
        e = np.exp(-np.abs(q))
        want = np.where(q < 0, e / (1 + e), 1 / (1 + e)) - y
    close(got, want, 4e-15 * (1 + (np.abs(p).max() if case["loss"] == "square" else 0)), "derivative of the %s loss",
          case["loss"])
    ensure(np.array_equal(p, keep[0]) and np.array_equal(y, keep[1]), "the derivative changed its arguments")
    t.hit(p.size > 1, case["loss"])


# ------------------------------------------------------------ block prox

@st.composite
def block_case(draw):
    c = draw(c06.case())
    d = c["d"]
    more = [{"x": draw(gens.vec(d)), "t": draw(gens.mild_positive),
             "order": draw(st.permutations(list(range(d + 1)))),
             "keep": draw(st.lists(st.booleans(), min_size=d + 1, max_size=d + 1))} for _ in range(draw(st.integers(4, 12)))]
    return dict(c, more=more)


def check_blocks(case, t):
    plain = c06.factories
    made = plain(case["pen"], case["d"])
    c06.factories = lambda c, d: made
    try:
        for m in [{}] + case["more"]:
            c06.check({k: v for k, v in dict(case, **m).items() if k != "more"}, t)
    finally:
        c06.factories = plain


# ------------------------------------------------------------ runs

@st.composite
def run_case(draw):
    if draw(st.integers(0, 2)):
        c = draw(c15.case())
        c["pens"] = [c["pen"]]
    else:
        c = draw(c16.case())
    c["rng"] = draw(st.integers(0, 10 ** 6))
    # kept few: each is compiled anew
    if c["loss"] == "huber":
        c["delta"] = 1.0
    return c


def check_runs(case, t):
    what = case["solver"]
    x0 = np.array(case["x0"])
    f = derivative(case["loss"], case.get("delta"))
    np.random.seed(case["rng"])
    if what == "vrtos":
        res = c16.run(case, x0, deriv=f, max_iter=8000)
        x = solvers.solution(res, (case["d"],))
        xs, z, r = refs.solve_sum(case, c16.total(case))
        if r > 1e-9:
            raise Reject("reference")
        s = 1 + np.abs(xs).max()
        err = np.linalg.norm(x - xs)
        ensure(err <= 1e-3 * s, "vrtos (compiled): %s is %g away from the minimizer %s", x.tolist(), err, xs.tolist())
        t.label("slow" if err > 1e-6 * s else "")
    else:
        res = c15.run(case, x0, deriv=f)
        ensure(bool(res.success), "%s (compiled) did not converge in 4000 passes", what)
        x = solvers.solution(res, (case["d"],))
        xs = refs.solve(case, case["pen"])
        solvers.check_minimizer(case, None, x, 1e-6 * (1 + np.abs(xs).max()), what + " (compiled)", xs)
    ensure(np.array_equal(x0, case["x0"]), "%s changed x0", what)
    t.hit(np.any(x0 != xs), what + " " + "+".join(p["kind"] for p in case["pens"]))
    t.label(case["loss"], case["fmt"])


# ------------------------------------------------------------ many threads at work

@st.composite
def huge_case(draw):
    return {"n": draw(st.sampled_from([8000, 33000, 70000])) + draw(st.integers(0, 999)), "k": draw(st.integers(1, 3)),
            "per": draw(st.integers(1, 3)), "rows": draw(st.integers(150, 400)), "cols": draw(st.integers(150, 400)),
            "solver": draw(st.sampled_from(["saga", "svrg", "vrtos"])), "loss": draw(st.sampled_from(["log", "square"])),
            "pen": draw(st.booleans()), "seed": draw(st.integers(0, 10 ** 6))}


def check_huge(case, t):
    """work that keeps several threads busy on the same features, and indices
    beyond 16 bits"""
    import copt
    from copt import tv_prox, utils
    rng = np.random.RandomState(case["seed"])
    n, d = case["n"], 3
    per = min(case["per"], d)
    indices = np.argsort(rng.rand(n, d), axis=1)[:, :per].ravel()
    A = sparse.csr_matrix((rng.randn(n * per), indices, np.arange(0, n * per + 1, per)), shape=(n, d))
    # products
    idx, y, x = rng.randint(0, n, n), rng.randn(n), rng.randn(d)
    for _ in range(3):
        close(arr(utils.fast_csr_vm(y, A.data, A.indptr, A.indices, d, idx), (d,)), A[idx].T @ y, 1e-8,
              "fast_csr_vm, %d rows", n)
        close(arr(utils.fast_csr_mv(A.data, A.indptr, A.indices, x, idx), (n,)), A[idx] @ x, 1e-11,
              "fast_csr_mv, %d rows", n)
    bs = 1 + n // 3
    np.random.seed(case["seed"])
    batches = arr(utils.sample_batches(n, 12, bs), (12 * bs,)).reshape(12, bs)
    for q in batches:
        ensure(q.min() >= 0 and q.max() < n and np.unique(q).size == bs, "a batch of %d out of %d samples has %d distinct "
               "ones", bs, n, np.unique(q).size)
    # lines of an image
    img = rng.randn(case["rows"], case["cols"])
    args = (0.7, img.ravel().copy(), case["rows"], case["cols"])
    by_row = arr(tv_prox.prox_tv1d_rows(*args), (img.size,)).reshape(img.shape)
    by_col = arr(tv_prox.prox_tv1d_cols(*args), (img.size,)).reshape(img.shape)
    for name, a, p in [("row", img, by_row), ("column", img.T, by_col.T)]:
        for i in range(len(a)):
            c07.certify1d(a[i], p[i], 0.7, 1e-11, "total variation prox of %s %d" % (name, i))
    # the minimizer of a sum of many terms
    s, loss = case["solver"], case["loss"]
    h = 0.25 if loss == "log" else 1.0
    B = A.toarray()
    b = (rng.rand(n) < 0.7) * 1.0 if loss == "log" else rng.randn(n) + B.sum(1)
    L = h * (B * B).sum(1).max()
    alpha = 0.02 * L
    lam = 0.1 * np.abs(B.T @ (b - 0.5 * (loss == "log"))).max() / n if case["pen"] else 0.0
    weight = n / np.count_nonzero(B, axis=0).min()
    x = np.zeros(d)
    for _ in range(300):
        p = B @ x
        g = B.T @ ((1 / (1 + np.exp(-p)) if loss == "log" else p) - b) / n + alpha * x
        step = 1.0 / (h * np.linalg.eigvalsh(B.T @ B / n)[-1] + alpha)
        x = x - step * g
        x = np.sign(x) * np.maximum(np.abs(x) - step * lam, 0)
    prox = copt.penalty.L1Norm(lam).prox_factory(d) if case["pen"] else None
    kw = dict(alpha=alpha, tol=0.0)
    kw["prox_1" if s == "vrtos" else "prox"] = prox
    solver = {"saga": copt.minimize_saga, "svrg": copt.minimize_svrg, "vrtos": copt.minimize_vrtos}[s]
    size = 1.0 / (3 * (L + alpha * weight))
    f = derivative(loss)
    np.random.seed(case["seed"])
    got = solvers.solution(solver(f, A, b, np.zeros(d), size, max_iter=40, **kw), (d,))
    close(got, x, 1e-6 * (1 + np.abs(x).max()), "%s (compiled), %d samples", s, n)
    kw.pop("prox_1", None)
    got = solvers.solution(copt.minimize_svrg(f, A, b, x.copy(), size, max_iter=3, **dict(kw, prox=prox)), (d,))
    close(got, x, 1e-9 * (1 + np.abs(x).max()), "svrg (compiled) started at the minimizer, %d samples", n)
    t.hit(np.any(x), s)
    t.label(loss, "l1" if case["pen"] else "")


def of(mod, name, count, rule, **kw):
    s = {s.name: s for s in mod.SUBS}[name]
    return Sub(name, s.strategy, compiled(s.check), count, rule=rule, **kw)


SUBS = [
    Sub("runs", run_case(), compiled(check_runs), 64, thorough=1200, rule="x0 is not the minimizer"),
    Sub("block_prox", block_case(), compiled(check_blocks), 96, thorough=2000, rule="some coordinate moved"),
    Sub("derivatives", deriv_case(), compiled(check_deriv), 800, rule="several points", shards=2),
    Sub("huge", huge_case(), compiled(check_huge), 8, thorough=400, rule="the minimizer is not zero", shards=8),
    of(c07, "tv1d", 1500, "result neither constant nor the input", shards=2),
    of(c07, "tv1d_long", 400, "as tv1d, up to 200 points", shards=2),
    of(c07, "lines", 800, "image is not constant", shards=2),
    of(c07, "tv2d", 300, "both sides above 1 and result not constant", shards=2),
    of(c08, "kernels", 1500, "both products are nonzero", shards=2),
    of(c08, "batches", 600, "proper batches of several samples", shards=2),
    of(c08, "uniform", 24, "every case, 2000 batches each", shards=2),
    of(c17, "history", 96, "as C17", shards=4),
]
