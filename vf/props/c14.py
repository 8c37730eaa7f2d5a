"""Pairwise Frank-Wolfe keeps its iterate a convex combination of active vertices."""
import numpy as np
from hypothesis import strategies as st

from .. import fw, gens, refs, solvers
from ..core import Sub, close, ensure, num
from .c13 import EPS, refs_gap, zmax

RULE = ("strongly convex losses over l1 balls, simplices and convex hulls of points with pairwise "
        "oracles, started from any vertex, with line search, DR and user-given steps.")


@st.composite
def case(draw):
    c = draw(gens.loss_case(n_max=6, d_min=2, d_max=5))
    c["ratio"] = draw(st.sampled_from([0.1, 0.3, 1.0]))
    c["set"] = draw(fw.set_case(c["d"], ("l1ball", "l1ball", "simplex", "hull")))
    if "radius" in c["set"]:
        c["set"]["radius"] = draw(st.sampled_from([0.5, 1.0, 2.0, 4.0]))
    c["x0"] = draw(st.integers(0, 11))
    c["step"] = draw(st.sampled_from(["backtracking", "DR", "DR", "callable"]))
    c["frac"] = draw(st.lists(st.sampled_from([1.0, 1.0, 0.5, 0.25, 0.9]), min_size=3, max_size=3))
    return c


@st.composite
def own_case(draw):
    return draw(gens.own_case(case(), zmax))


def vertices_of(s, d):
    if s["kind"] == "hull":
        return {i: np.array(p) for i, p in enumerate(s["points"])}
    E = s["radius"] * np.eye(d)
    if s["kind"] == "simplex":
        return {i: E[i] for i in range(d)}
    out = {(sg, i): sg * E[i] for i in range(d) for sg in (1.0, -1.0)}
    out.update({(0.0, i): 0 * E[i] for i in range(d)})
    return out


def check(case, t):
    from copt import minimize_frank_wolfe
    d, s, step = case["d"], case["set"], case["step"]
    f = solvers.Smooth(case, what="pairwise Frank-Wolfe")
    L, D, R = f.L, fw.diameter(s), fw.radius(s)
    x0, name = fw.vertex(s, d, case["x0"])
    rec = fw.Recorder(fw.build(s, True, d))
    kw, arg = {}, step
    k = [0]
    if step == "DR":
        kw["lipschitz"] = L
    if step == "callable":
        kw["lipschitz"] = L

        def arg(dl):
            # DR step, shortened at random
            k[0] += 1
            dd = np.asarray(dl["update_direction"])
            u = rec.calls[-1][0]
            return min(case["frac"][k[0] % 3] * (dd @ u) / (L * (dd @ dd)), dl["max_step_size"])
    scale = 1 + R
    n_max = {"DR": 4000, "callable": 2000, "backtracking": 500}[step]
    tol = 1e-7 * (1 + L * D * D) if step != "backtracking" else 0.01 * (1 + L * D * D)
    res = minimize_frank_wolfe(f.f_grad, x0, rec, x0_rep=name, variant="pairwise", jac=True, step=arg, tol=tol,
                               max_iter=n_max, **kw)
    x = solvers.solution(res, (d,))
    what = "pairwise Frank-Wolfe (%s)" % step
    verts = vertices_of(s, d)
    gam = fw.steps_between(rec.calls, x, scale, what)
    for i, c in enumerate(rec.calls):
        fw.check_active(c[6], verts, c[1], scale, "%s, iterate %d" % (what, i))
        ensure(fw.infeasibility(s, c[1]) <= 1e-8 * scale, "%s: iterate %d infeasible", what, i)
        g = f.ref.grad(c[1])
        close(c[0], -g, 1e-8 * (1 + np.abs(g).max()), "%s: direction given to the oracle at iterate %d", what, i)
    ensure(rec.calls[0][6] == {name: 1.0}, "%s: initial active set %r", what, rec.calls[0][6])
    fw.check_active(res.active_set, verts, x, scale, "%s, solution" % what)
    vals = [f.ref.value(c[1]) for c in rec.calls] + [f.ref.value(x)]
    n = len(rec.calls)
    for i in range(n - 1):
        slack = 1e-9 * (1 + abs(vals[i])) + (EPS if step == "backtracking" else 0)
        ensure(vals[i + 1] <= vals[i] + slack, "%s: step %d increases the objective", what, i)
        dd = rec.calls[i][2]
        gap = dd @ rec.calls[i][0]
        ensure(gam[i] > 0 or gap <= 1e-13, "%s: step %d has length zero", what, i)
        # the active set moves exactly the length of the step
        a, b = rec.calls[i][6], rec.calls[i + 1][6]
        away = rec.calls[i][5]
        ensure(abs(a[away] - b.get(away, 0.0) - gam[i]) <= 1e-7, "%s: step %d of length %r takes %r from the away "
               "vertex", what, i, gam[i], a[away] - b.get(away, 0.0))
    cert = num(res.certificate)
    ensure(bool(res.success) == (cert <= tol), "%s: success is %r, gap %r, tol %r", what, res.success, cert, tol)
    gap = refs_gap(f.ref, s, x)
    if res.success:
        # the pairwise gap bounds the Frank-Wolfe gap
        ensure(gap <= tol * (1 + 1e-7) + 1e-9, "%s: gap %r at the solution, tol %r", what, gap, tol)
    else:
        # linear convergence, but hulls can be badly conditioned and shortened
        # steps never drop a vertex
        ensure(s["kind"] == "hull" or step == "callable", "%s: gap %r above %r after %d iterations", what, gap, tol, n_max)
        t.label("not converged")
    drop = sum(len(rec.calls[i + 1][6]) < len(rec.calls[i][6]) for i in range(n - 1))
    active = max(len(c[6]) for c in rec.calls)
    t.hit(active > 1, "%d active" % active)
    t.label(step, s["kind"], "drop steps" if drop else "")


SUBS = [
    Sub("active_set", case(), check, 1500, rule="some iterate has more than one active vertex"),
    Sub("own", own_case(), check, 300, rule="as active_set"),
    Sub("large", gens.large(case()), check, 100, rule="as active_set"),
]
