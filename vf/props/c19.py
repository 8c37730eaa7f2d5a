"""The result tells the truth: success, iterations, certificates."""
import numpy as np
from hypothesis import strategies as st

from .. import fw, gens, refs, solvers, zoo
from ..core import Sub, Reject, arr, ensure, num
from . import c15, c16

RULE = "random problems for each solver, tolerances from loose to tight, small iteration limits."


@st.composite
def case(draw, names=zoo.ALL):
    c = draw(zoo.case(names))
    c["tol"] = 10.0 ** -draw(st.integers(0, 8))
    return c


def minimizer(case):
    ts = zoo.terms(case)
    if "set" in case:
        return None
    if len(ts) == 1:
        return refs.solve(case, ts[0])
    x, z, r = refs.solve_sum(case, ts)
    if r > 1e-8:
        raise Reject("reference")
    return x


# how far from the solution a run that reports success may be, in units of the
# tolerance (measured: at most 10, 10, 3, 100, 30, 100, 300)
FACTOR = {"pgd": 100.0, "apgd": 100.0, "tos": 100.0, "pdhg": 2000.0, "saga": 1e3, "svrg": 1e3, "vrtos": 3e3}


def check_success(case, t):
    """success means that the solution is as good as the tolerance says"""
    s, tol = case["solver"], case["tol"]
    if s in ("saga", "svrg", "vrtos"):
        tol = max(tol, 1e-7)
    res = zoo.solve(case, tol=tol, max_iter=4000)
    x = solvers.solution(res, (case["d"],), s)
    if not res.success:
        t.label(s + " failed")
        ensure(s in ("fw", "pfw", "pdhg", "vrtos"), "%s did not reach tolerance %g in 4000 iterations", s, tol)
        return
    if "set" in case:
        f = refs.Loss(case, np.float64)
        g = f.grad(x)
        gap = fw.support(case["set"], -g) + g @ x
        ensure(gap <= tol * (1 + 1e-6) + 1e-9 * (1 + np.abs(g).max() * fw.diameter(case["set"])),
               "%s: success with gap %g, tolerance %g", s, gap, tol)
    else:
        xs = minimizer(case)
        unit = tol / gens.alpha_of(case) if s in ("pgd", "apgd", "tos") else tol
        err = np.linalg.norm(x - xs)
        t.label("%s %d" % (s, round(np.log10(err / unit + 1e-9))))
        ensure(err <= FACTOR[s] * unit + 1e-7 * (1 + np.abs(xs).max()), "%s: success %g away from the minimizer %s, "
               "tolerance %g", s, err, xs.tolist(), tol)
    t.hit(res.nit > 1, s)
    t.label("tol 1e%d" % round(np.log10(tol)))


@st.composite
def limit_case(draw):
    c = draw(case())
    c["max_iter"] = draw(st.integers(1, 30))
    c["tol"] = draw(st.sampled_from([0.0, 1e-6, 1e-2, 0.3]))
    return c


def check_fields(case, t):
    """iteration limits, success flags and certificates agree with the history"""
    s, tol, d, limit = case["solver"], case["tol"], case["d"], case["max_iter"]
    seen = []
    more = {"trace_certificate": True} if s in ("pgd", "apgd") else {}
    res = zoo.solve(case, tol=tol, max_iter=limit, callback=lambda dl: seen.append(np.array(dl["x"], dtype=float)), **more)
    x = solvers.solution(res, (d,), s)
    ensure(isinstance(res.nit, (int, np.integer)) and 0 <= res.nit <= limit, "%s: %r iterations, at most %d", s, res.nit,
           limit)
    ensure(isinstance(res.success, (bool, np.bool_)), "%s: success is %r", s, res.success)
    if not res.success:
        ensure(res.nit >= limit - 1, "%s: gave up after %d of %d iterations", s, res.nit, limit)
    if s == "sfw":
        # SFW measures steps, of which a pass has several
        t.hit(len(seen) > 2, s)
        return
    if s in ("saga", "svrg"):
        moved = np.abs(seen[-1] - seen[-2]).sum()
        ensure(not res.success or moved < tol, "%s: success although the last pass moved by %r, tol %r", s, moved, tol)
        if s == "svrg":
            ensure(res.success or moved >= tol, "%s: no success although the last pass moved by %r, tol %r", s, moved, tol)
    if s not in ("saga", "svrg"):
        cert = num(res.certificate, "certificate")
        ensure(cert >= -1e-12 * (1 + abs(cert)) or s in ("fw", "pfw"), "%s: negative certificate %r", s, cert)
        if s in ("pgd", "apgd", "pdhg"):
            ensure(bool(res.success) == (cert < tol), "%s: success %r with certificate %r, tolerance %r", s, res.success,
                   cert, tol)
        elif s in ("fw", "pfw"):
            ensure(bool(res.success) == (cert <= tol), "%s: success %r with certificate %r, tolerance %r", s,
                   res.success, cert, tol)
        elif s == "vrtos":
            ensure(not res.success or cert < tol, "vrtos: success with certificate %r, tolerance %r", cert, tol)
        elif s == "tos":
            ensure(not res.success or cert < tol, "%s: success with certificate %r, tolerance %r", s, cert, tol)
            ensure(res.success or cert >= tol or res.nit == 0, "%s: no success with certificate %r, tolerance %r", s,
                   cert, tol)
    if s in ("pgd", "apgd"):
        tr = [num(v) for v in res.trace_certificate]
        ensure(len(tr) == res.nit + 1, "%s: %d certificates traced in %d iterations", s, len(tr), res.nit + 1)
        ensure(tr[-1] == res.certificate, "%s: the last certificate is %r, %r is returned", s, tr[-1], res.certificate)
        ensure(all(v >= tol for v in tr[:-1]), "%s: went on with certificate below the tolerance %r: %s", s, tol, tr)
        if case["step"] == "callable":
            f, L = refs.Loss(case, np.float64), gens.lipschitz_of(case)
            pts = seen + [x]
            for k, v in enumerate(tr):
                if s == "pgd":
                    want = np.linalg.norm(pts[k + 1] - pts[k]) * L
                else:
                    want = np.linalg.norm(refs.gradient_mapping(f, case["pen"], pts[k + 1], 1.0 / L))
                ensure(abs(v - want) <= 1e-7 * (1 + want) * (1 + L), "%s: certificate %r at iteration %d, the gradient "
                       "mapping is %r", s, v, k, want)
        elif s == "pgd":
            ensure(num(res.step_size) > 0, "step size %r", res.step_size)
    elif s in ("tos", "pdhg"):
        ensure(num(res.step_size) > 0, "%s: step size %r", s, res.step_size)
    t.hit(len(seen) > 2, s)
    t.label("success" if res.success else "exhausted")


@st.composite
def units_case(draw):
    """large and small variables: the tolerance is absolute"""
    c = draw(limit_case())
    k = draw(st.sampled_from([1e-3, 30.0, 1e3, 1e5]))
    c["A"] = (np.array(c["A"]) / k).tolist()
    for s in zoo.terms(c):
        if "radius" in s:
            s["radius"] *= k
        if "points" in s:
            s["points"] = (np.array(s["points"]) * k).tolist()
        if "lam" in s:
            s["lam"] /= k
    if not (isinstance(c["x0"], list) and c["x0"] and isinstance(c["x0"][0], list)):
        c["x0"] = (np.array(c["x0"]) * k).tolist()
    c["max_iter"] = draw(st.sampled_from([10, 101, 400]))
    c["tol"] = draw(st.sampled_from([1.0, 2.0, 5.0])) * 10.0 ** draw(st.integers(-9, 3))
    return c


@st.composite
def earliest_case(draw):
    c = draw(case())
    c["tol"] = 10.0 ** -draw(st.integers(0, 5))
    c["slack"] = draw(st.integers(2, 40))
    return c


def check_earliest(case, t):
    """success comes at the first iteration that meets the criterion: a run cut
    before it fails, and a limit that is not reached has no influence"""
    s, tol = case["solver"], case["tol"]
    res = zoo.solve(case, tol=tol, max_iter=400)
    t.label("%s %s" % (s, "success" if res.success else "failed"))
    if not res.success:
        return
    x = solvers.solution(res, (case["d"],), s)
    more = zoo.solve(case, tol=tol, max_iter=res.nit + case["slack"])
    ensure(more.success and more.nit == res.nit and np.array_equal(np.asarray(more.x), x), "%s: %d iterations with limit "
           "400, but %d (success %r) with limit %d", s, res.nit, more.nit, more.success, res.nit + case["slack"])
    if res.nit >= 2:
        less = zoo.solve(case, tol=tol, max_iter=res.nit - 1)
        ensure(not less.success, "%s: success after %d iterations, but also after %d with a lower limit", s, res.nit,
               less.nit)
        ensure(less.nit <= res.nit - 1, "%s: %d iterations with limit %d", s, less.nit, res.nit - 1)
        t.hit(True, s)


@st.composite
def rest_case(draw):
    """thousands of iterations after the solution has been reached"""
    c = draw(case(("pgd", "pgd", "apgd", "tos", "pdhg")))
    if draw(st.booleans()):
        # no move at all, or with a large weight none after a few
        c["b"] = [0.5 if c["loss"] == "log" else 0.0] * c["n"]
        c["x0"] = [0.0] * c["d"] if draw(st.booleans()) else c["x0"]
    c["iters"] = 8000 if c["solver"] in ("pgd", "tos") else 3000
    return c


def check_rest(case, t):
    """a run which cannot meet its tolerance (zero) ends at the minimizer, however long it goes on"""
    s = case["solver"]
    res = zoo.solve(case, tol=0.0, max_iter=case["iters"])
    x = solvers.solution(res, (case["d"],), s)
    num(res.certificate, "%s: certificate" % s)
    num(res.step_size if s != "apgd" else 0.0, "%s: step size" % s)
    xs = minimizer(case)
    err = np.linalg.norm(x - xs)
    t.label("%s 1e%d" % (s, np.ceil(np.log10(err + 1e-16))))
    ensure(err <= 1e-5 * (1 + np.abs(xs).max()) / min(1.0, gens.alpha_of(case)), "%s: %g away from the minimizer %s after %d iterations", s, err,
           xs.tolist(), case["iters"])
    t.hit(res.nit > 1000, s)


@st.composite
def copies_case(draw):
    c = draw(c16.case())
    c["max_iter"] = draw(st.integers(1, 9))
    c["tol"] = draw(st.sampled_from([0.0, 1e-3, 0.1, 1.0]))
    return c


def check_copies(case, t):
    """the certificate of VRTOS is the distance between its copies of the iterate"""
    v = c15.Visits(case)
    res = c16.run(case, max_iter=case["max_iter"], callback=v.callback, deriv=v, b=v.index, tol=case["tol"])
    cert = num(res.certificate, "certificate")
    ensure(len(v.xs) == res.nit + 2, "vrtos: %d iterations, %d callbacks", res.nit, len(v.xs))
    ensure(np.array_equal(res.x, v.xs[-1]), "vrtos: returned %s, but the last iterate is %s", res.x, v.xs[-1])
    moved = np.abs(v.xs[-1] - v.xs[-2]).sum()
    ensure(not res.success or max(cert, moved) < case["tol"], "vrtos: success with certificate %r after moving by %r, "
           "tolerance %r", cert, moved, case["tol"])
    if not all(len(e) == case["n"] for e in v.epochs[1:-1]):
        return
    gaps = c16.trajectory(case, v, t)
    if gaps:
        want = gaps[-1]
        ensure(abs(cert - want) <= 1e-6 * (1 + want + np.abs(res.x).max()), "vrtos: certificate %r, the copies of the "
               "iterate are %r apart", cert, want)
        t.hit(want > 1e-4, "success" if res.success else "exhausted")


BASIC = ("pgd", "apgd", "tos", "pdhg", "fw", "pfw", "saga", "svrg", "vrtos")
SUBS = [
    Sub("success", case(BASIC), check_success, 1500, rule="success after more than one iteration"),
    Sub("fields", limit_case(), check_fields, 1500, rule="more than two callbacks"),
    Sub("earliest", earliest_case(), check_earliest, 800, rule="success after two or more iterations"),
    Sub("fields_units", units_case(), check_fields, 800, rule="as fields"),
    Sub("copies", copies_case(), check_copies, 400, rule="the copies of the iterate differ"),
    Sub("rest", rest_case(), check_rest, 80, thorough=800, rule="more than 1000 iterations"),
    Sub("success_large", gens.large(case(BASIC), 40, 20), check_success, 100, rule="as success"),
    Sub("fields_large", gens.large(limit_case(), 40, 20), check_fields, 100, rule="as fields"),
]
