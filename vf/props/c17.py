"""Stochastic Frank-Wolfe: feasible iterates, gradient estimates from the cited
methods, deterministic special case, convergence."""
import numpy as np
from hypothesis import strategies as st

from .. import fw, gens, refs, solvers
from ..core import Sub, close, ensure, num
from . import c14, c15

RULE = ("all four variants, batch sizes dividing n or not, every step strategy, l1 balls, simplices, "
        "trace-norm balls and hulls of points, dense and sparse data; samples, predictions and "
        "oracle calls are recorded in order.")
VARIANTS = ["SAG", "SAGA", "MHK", "LF"]


@st.composite
def case(draw, kinds=("l1ball", "simplex", "traceball", "hull"), steps=("sublinear", "DR", "callable")):
    c = draw(gens.loss_case(n_max=7, d_max=5))
    c["alpha"] = 0.0
    c["set"] = draw(fw.set_case(c["d"], kinds))
    c["x0"] = draw(fw.start(c["set"], c["d"]))
    c["variant"] = draw(st.sampled_from(VARIANTS))
    c["batch"] = draw(st.one_of(st.just(1), st.integers(1, c["n"])))
    c["step"] = draw(st.sampled_from(list(steps)))
    c["fmt"] = draw(st.sampled_from(gens.FORMATS + ["dup"]))
    c["epochs"] = draw(st.integers(1, 12))
    c["rng"] = draw(st.integers(0, 1000))
    c["frac"] = draw(st.lists(st.sampled_from([1.0, 0.5, 0.3, 0.1, 0.0]), min_size=4, max_size=4))
    return c


class Log:
    """recorded history: ("deriv", samples, predictions) and ("lmo", ...)"""

    def __init__(self, case):
        self.f, self.b = c15.derivative(case), np.array(case["b"])
        self.index = np.arange(len(self.b), dtype=float)
        self.events = []

    def deriv(self, p, i):
        i = np.asarray(i).astype(int)
        self.events.append(("deriv", i.copy(), np.array(p, dtype=float)))
        return self.f(p, self.b[i])


def lipschitz(case):
    return max(gens.curvature(case), 1e-6)


def run(case, x0, rec, log, tol=0.0, max_iter=None, callback=None, step=None, **kw):
    from copt import minimize_sfw
    np.random.seed(case["rng"])

    def lmo(u, x, active=None):
        out = rec(u, x, active)
        log.events.append(("lmo", len(rec.calls) - 1))
        return out
    if case["step"] == "DR":
        kw["lipschitz"] = lipschitz(case)
    return minimize_sfw(log.deriv, gens.to_format(case["A"], case["fmt"]), log.index, x0, lmo,
                        batch_size=case["batch"], step_size=step or case["step"],
                        max_iter=max_iter or case["epochs"], tol=tol, callback=callback, variant=case["variant"], **kw)


def check(case, t):
    s, d, n, variant = case["set"], case["d"], case["n"], case["variant"]
    what = "SFW %s %s" % (variant, case["step"])
    scale = 1 + fw.radius(s)
    x0 = fw.start_point(s, d, case["x0"])
    keep = x0.copy()
    rec, log, seen, given = fw.Recorder(fw.build(s)), Log(case), [], []

    def step(dl):
        given.append((case["frac"][len(given) % 4], 0.5 + 0.5 * case["frac"][(len(given) + 1) % 4]))
        return given[-1]
    res = run(case, x0, rec, log, step=step if case["step"] == "callable" else None,
              callback=lambda dl: seen.append(np.array(dl["x"], dtype=float)))
    x = solvers.solution(res, (d,))
    ensure(np.array_equal(x0, keep), "%s changed x0", what)
    total = case["epochs"] * (n // case["batch"])
    ensure(len(rec.calls) == total, "%s: %d oracle calls in %d passes with batches of %d from %d samples", what,
           len(rec.calls), case["epochs"], case["batch"], n)
    ensure(len(seen) == total + 1, "%s: %d callbacks in %d steps", what, len(seen), total)
    ensure(not res.success, "%s: success with zero tolerance", what)
    pts = [c[1] for c in rec.calls] + [x]
    for k, (p, q) in enumerate(zip(pts, seen)):
        ensure(fw.infeasibility(s, p) <= 1e-8 * scale, "%s: iterate %d infeasible by %g", what, k,
               fw.infeasibility(s, p))
        close(q, p, 1e-12 * scale, "%s: iterate %d shown to the callback", what, k)
    gam = fw.steps_between(rec.calls, x, scale, what)
    m = n / case["batch"]
    for k, (g, c) in enumerate(zip(gam, rec.calls)):
        n2 = c[2] @ c[2]
        if np.sqrt(n2) <= 1e-6 * scale:
            continue
        if case["step"] == "callable":
            want = given[k][0]
        elif case["step"] == "DR":
            u = c[0] if n2 else 0
            want = min((u @ c[2]) / (lipschitz(case) * n2), c[3])
            if abs(u @ c[2]) <= 1e-12 * np.abs(u).max() * scale:
                want = 0.0
        elif variant in ("SAG", "SAGA"):
            want = 2.0 / (k + 2)
        elif variant == "MHK":
            want = 2.0 / (k + 8)
        else:
            want = 2 * (2 * m + k) / ((k + 1) * (4 * m + k))
        ensure(abs(g - want) <= 1e-6 * (1 + want), "%s: step %d is %r, expected %r", what, k, g, want)
    if variant == "LF":
        substitute(case, rec, log, what, x0, given)
    else:
        table(case, rec, log, what, given)
    t.hit(total > 2 and any(g > 0 for g in gam[1:]), variant + " " + case["step"])
    t.label(s["kind"], "batch" if case["batch"] > 1 else "", case["fmt"])


def visits(case, log):
    """groups of samples used between oracle calls"""
    out, cur = [], []
    for e in log.events:
        if e[0] == "deriv":
            cur.append(e)
        else:
            out.append((e[1], cur))
            cur = []
    return out, cur


def table(case, rec, log, what, given):
    """SAG and SAGA: a table of the last derivative of every sample; MHK: of
    running averages of the derivatives"""
    A, n = np.array(case["A"]), case["n"]
    tab, big = np.zeros(n), 0.0
    groups, rest = visits(case, log)
    ensure(not rest, "%s: derivatives after the last step", what)
    for k, evs in groups:
        x = rec.calls[k][1]
        old = tab.copy()
        ids = np.concatenate([e[1] for e in evs]) if evs else np.zeros(0, int)
        ensure(len(ids) == case["batch"], "%s: step %d uses %d samples, the batch size is %d", what, k, len(ids),
               case["batch"])
        ensure(len(set(ids.tolist())) == len(ids), "%s: batch %d repeats a sample: %s", what, k, ids.tolist())
        for e in evs:
            close(e[2], A[e[1]] @ x, 1e-9 * (1 + np.abs(A[e[1]] @ x).max()), "%s: predictions in step %d", what, k)
        new = log.f(A[ids] @ x, log.b[ids]) / n
        if case["variant"] == "MHK":
            rho = given[k][1] if case["step"] == "callable" else (2.0 / (k + 8)) ** (2.0 / 3)
            new = tab[ids] + rho * (new - tab[ids])
        tab[ids] = new
        g = A.T @ tab
        if case["variant"] == "SAGA":
            g = g + (n / len(ids) - 1) * A.T @ (tab - old)
        if case["variant"] == "MHK":
            # only the direction matters to the oracle
            u = -rec.calls[k][0]
            # rounding errors of all the increments
            big = np.maximum(big, np.abs(A.T) @ np.abs(tab) + np.abs(A.T) @ np.abs(old))
            bound = 1e-9 * big
            ensure(np.abs(u).max() > 0 or np.all(np.abs(g) <= bound), "%s: zero estimate in step %d", what, k)
            if np.any(np.abs(g) > 1e4 * bound):
                r = (u @ g) / (g @ g)
                ensure(r > 0, "%s: gradient estimate in step %d has the wrong direction", what, k)
                close(u, r * g, 1e-7 * np.abs(u).max() + r * bound.max(), "%s: gradient estimate in step %d", what, k)
            continue
        close(-rec.calls[k][0], g, 1e-8 * (1 + np.abs(g).max()), "%s: gradient estimate in step %d", what, k)


def substitute(case, rec, log, what, x0, given):
    """LF: a table of substitute predictions, averaged with those of the vertices"""
    A, n = np.array(case["A"]), case["n"]
    m = n / case["batch"]
    sigma, tab = A @ x0, np.zeros(n)
    pending = None
    k = -1
    for e in log.events:
        if e[0] == "lmo":
            if pending is not None:
                ensure(False, "%s: two oracle calls in a step", what)
            k = e[1]
            u, x, direction = rec.calls[k][:3]
            g = A.T @ tab
            close(-u, g, 1e-8 * (1 + np.abs(g).max()), "%s: gradient estimate in step %d", what, k)
            pending = x + direction
        else:
            ids = e[1]
            ensure(pending is not None and len(ids) == case["batch"] and len(set(ids.tolist())) == len(ids),
                   "%s: samples %s in step %d, the batch size is %d", what, ids.tolist(), k, case["batch"])
            delta = given[k][1] if case["step"] == "callable" else 2 * m / (2 * m + k + 1)
            sigma[ids] += delta * (A[ids] @ pending - sigma[ids])
            close(e[2], sigma[ids], 1e-8 * (1 + np.abs(sigma).max()), "%s: substitute predictions in step %d", what, k)
            tab[ids] = log.f(sigma[ids], log.b[ids]) / n
            pending = None


# ------------------------------------------------------------ deterministic case

def check_full(case, t):
    """with the whole data set in every batch SAG and SAGA are Frank-Wolfe"""
    from copt import minimize_frank_wolfe
    s, d = case["set"], case["d"]
    case = dict(case, variant="SAGA" if case["variant"] == "SAGA" else "SAG", batch=case["n"], step="sublinear")
    x0 = fw.start_point(s, d, case["x0"])
    K = 10 * case["epochs"]
    f = refs.Loss(case, np.float64)
    rec, log = fw.Recorder(fw.build(s)), Log(case)
    res = run(case, x0, rec, log, max_iter=K)
    x = solvers.solution(res, (d,))
    scale = 1 + fw.radius(s)
    det = fw.Recorder(fw.build(s))
    for k in range(K):
        y = rec.calls[k][1]
        g = f.grad(y)
        close(rec.calls[k][0], -g, 1e-8 * (1 + np.abs(g).max()), "full batch: gradient at step %d", k)
    # and its rate
    L, D = gens.curvature(case), fw.diameter(s)
    best = min((c[2] @ c[0]) for c in rec.calls)
    ensure(best <= 8 * L * D * D / (K + 2) + 1e-9 * scale, "full batch: smallest gap %g after %d steps, at most %g",
           best, K, 8 * L * D * D / (K + 2))
    if s["kind"] == "traceball":
        # iterative singular vectors: rounding differences accumulate
        t.hit(np.any(x != x0), s["kind"])
        return
    # the two solvers agree while their paths are not split by ties
    other = minimize_frank_wolfe(lambda z: (f.value(z), f.grad(z)), x0, det, jac=True, step="sublinear", max_iter=K, tol=0)
    agree = 0
    for a, b in zip(rec.calls, det.calls):
        if np.max(np.abs(a[2] - b[2])) > 1e-6 * scale:
            gapa, gapb = a[2] @ a[0], b[2] @ b[0]
            ensure(abs(gapa - gapb) <= 1e-8 * (1 + abs(gapa)), "full batch leaves the path of Frank-Wolfe at step %d",
                   agree)
            break
        close(a[1], b[1], 1e-9 * scale, "full batch and Frank-Wolfe at step %d", agree)
        agree += 1
    t.hit(agree > 3 and np.any(x != x0), s["kind"])
    t.label("all steps" if agree == K else "")


# --------------------------------------------------------------------- stopping

@st.composite
def stop_case(draw):
    c = draw(case(steps=("sublinear",)))
    c["tol"] = draw(st.sampled_from([0.5, 0.1, 0.02]))
    c["epochs"] = draw(st.integers(1, 40))
    return c


def check_stop(case, t):
    s, d = case["set"], case["d"]
    what = "SFW %s" % case["variant"]
    x0 = fw.start_point(s, d, case["x0"])
    rec, log = fw.Recorder(fw.build(s)), Log(case)
    tol = case["tol"] * fw.radius(s)
    res = run(case, x0, rec, log, tol=tol)
    x = solvers.solution(res, (d,))
    pts = [c[1] for c in rec.calls] + [x]
    moves = [np.abs(b - a).sum() for a, b in zip(pts, pts[1:])]
    total = case["epochs"] * (case["n"] // case["batch"])
    for k, m in enumerate(moves[:-1]):
        ensure(m >= tol * (1 - 1e-9), "%s went on although step %d moved by %r, tol %r", what, k, m, tol)
    if res.success:
        ensure(moves[-1] < tol * (1 + 1e-9), "%s: success although the last step moved by %r, tol %r", what, moves[-1],
               tol)
    else:
        ensure(len(rec.calls) == total and moves[-1] >= tol * (1 - 1e-9), "%s stopped without success after %d of %d "
               "steps, last move %r, tol %r", what, len(rec.calls), total, moves[-1], tol)
    t.hit(res.success and len(moves) > 1, "stopped")
    t.label(case["variant"], "exhausted" if not res.success else "")


# --------------------------------------------------------------------- pairwise

@st.composite
def pair_case(draw):
    c = draw(case(kinds=("l1ball", "l1ball", "simplex", "hull"), steps=("DR", "callable")))
    c["x0"] = draw(st.integers(0, 11))
    return c


def check_pairwise(case, t):
    s, d = case["set"], case["d"]
    what = "pairwise SFW %s %s" % (case["variant"], case["step"])
    x0, name = fw.vertex(s, d, case["x0"])
    rec, log = fw.Recorder(fw.build(s, True, d)), Log(case)
    k = [0]

    def step(dl):
        k[0] += 1
        # the variants differ in whether the direction is already known
        return (0.0 if not rec.calls else case["frac"][k[0] % 4] * 1e-2, 0.5)

    try:
        res = run(case, x0, rec, log, step=step if case["step"] == "callable" else None, x0_rep=name,
                  lmo_variant="pairwise")
        x = solvers.solution(res, (d,))
    except ValueError as e:
        # documented refusal of a step longer than the maximum one
        if case["step"] != "callable" or "step size" not in str(e):
            raise
        x = None
        t.label("refused")
    scale = 1 + fw.radius(s)
    verts = c14.vertices_of(s, d)
    for i, c in enumerate(rec.calls):
        fw.check_active(c[6], verts, c[1], scale, "%s, iterate %d" % (what, i), strict=False)
    if x is not None:
        fw.steps_between(rec.calls, x, scale, what)
        ensure(fw.infeasibility(s, x) <= 1e-8 * scale, "%s: solution infeasible", what)
    t.hit(max(len(c[6]) for c in rec.calls) > 1, case["variant"] + " " + case["step"])


# ------------------------------------------------------------------ convergence

def check_progress(case, t):
    """after T steps the objective is within a multiple of L D^2 n / T of optimal"""
    s, d, n = case["set"], case["d"], case["n"]
    case = dict(case, batch=1, step="sublinear", epochs=1 + 600 // n)
    x0 = fw.start_point(s, d, case["x0"])
    rec, log = fw.Recorder(fw.build(s)), Log(case)
    x = solvers.solution(run(case, x0, rec, log), (d,))
    f = refs.Loss(case, np.float64)
    g = f.grad(x)
    gap = fw.support(s, -g) + g @ x
    A = np.array(case["A"])
    h = 0.25 if case["loss"] == "log" else 1.0
    D = fw.diameter(s)
    LD = h * (A * A).sum(1).max() * D * D
    bound = 60 * LD / len(rec.calls)
    what = "SFW %s" % case["variant"]
    ensure(gap <= bound + 1e-7 * (1 + np.abs(g).max() * D), "%s: gap %g after %d steps, L D^2 is %g", what, gap,
           len(rec.calls), LD)
    g0 = f.grad(x0)
    t.hit(fw.support(s, -g0) + g0 @ x0 > bound, case["variant"])
    t.label(s["kind"], case["loss"])


@st.composite
def many_case(draw):
    """more samples than 16-bit indices can count"""
    n = draw(st.sampled_from([33000, 40000, 66000])) + draw(st.integers(0, 999))
    return {"n": n, "d": draw(st.integers(1, 3)), "seed": draw(st.integers(0, 10 ** 6)), "loss": draw(st.sampled_from(["square", "log"])),
            "variant": draw(st.sampled_from(VARIANTS)), "batch": n // draw(st.integers(1, 6)), "rng": draw(st.integers(0, 1000)),
            "step": draw(st.sampled_from(["sublinear", "DR"])), "fmt": draw(st.sampled_from(["dense", "csr"])),
            "epochs": draw(st.integers(1, 3)), "alpha": 0.0, "ratio": 0.0, "frac": [0.5] * 4}


def check_many(case, t):
    rng = np.random.RandomState(case["seed"])
    n, d = case["n"], case["d"]
    A = np.round(rng.randn(n, d) * (rng.rand(n, d) < 0.6), 1)
    b = rng.randint(0, 2, n) * 1.0 if case["loss"] == "log" else np.round(A @ np.ones(d) + rng.randn(n), 1)
    s = {"kind": "l1ball", "radius": 1.0}
    check(dict(case, A=A, b=b, set=s, x0=[[0, 1], [1, 2]]), t)


@st.composite
def long_case(draw):
    c = draw(case())
    n = draw(st.integers(1, min(c["n"], 4)))
    c["n"], c["A"], c["b"] = n, c["A"][:n], c["b"][:n]
    c["batch"] = min(c["batch"], n)
    c["epochs"] = draw(st.sampled_from([100, 300, 600]))
    return c


SUBS = [
    Sub("history", case(), check, 900, rule="more than two steps, one after the first moves"),
    Sub("full_batch", case(steps=("sublinear",)), check_full, 300, rule="the iterate moves and four steps agree"),
    Sub("stopping", stop_case(), check_stop, 500, rule="stops by the tolerance after two steps or more"),
    Sub("pairwise", pair_case(), check_pairwise, 500, rule="some iterate has more than one active vertex"),
    Sub("progress", case(steps=("sublinear",)), check_progress, 500, rule="the gap at the start is above the bound"),
    Sub("large", gens.large(case(), 60, 30), check, 120, rule="as history"),
    Sub("stopping_large", gens.large(stop_case(), 60, 30), check_stop, 60, rule="as stopping"),
    Sub("long", long_case(), check, 40, rule="as history"),
    Sub("many", many_case(), check_many, 16, thorough=64, rule="as history", shards=8),
]
