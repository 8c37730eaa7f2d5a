"""Requests that make no sense are refused; their valid neighbours are not."""
import warnings

import numpy as np
from hypothesis import strategies as st
from scipy import sparse

from .. import fw, gens, refs, solvers, zoo
from ..core import Sub, arr, ensure, fail, num

RULE = ("random problems in which one argument is outside of what is documented (labels, dimensions, groups, shapes, "
        "radii, tolerances, strategies, missing constants, step lengths), and the same with a valid argument close to it.")

# what the code raises today; anything of the kind will do
REFUSED = (ValueError, AssertionError, NotImplementedError, TypeError)


def refuse(f, what, *args):
    what = what % args if args else what
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            out = f()
    except REFUSED:
        return
    fail("%s is accepted: %s", what, str(out)[:200])


def accept(f, what, *args):
    what = what % args if args else what
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return f()
    except REFUSED as e:
        fail("%s is refused: %r", what, e)


# ------------------------------------------------------------- objects

@st.composite
def object_case(draw):
    c = {"kind": draw(st.sampled_from(["labels", "rows", "groups", "shape", "radius", "dims", "tv", "steps"]))}
    n, d = draw(st.integers(1, 6)), draw(st.integers(1, 6))
    c.update(n=n, d=d, i=draw(st.integers(0, n - 1)), fmt=draw(st.sampled_from(gens.FORMATS + ["dup"])),
             A=draw(gens.matrix(n, d, zero_cols=True)), b=draw(st.lists(st.integers(0, 8).map(lambda k: k / 8.0),
                                                                        min_size=n, max_size=n)))
    c["off"] = draw(st.sampled_from([1e-9, 0.01, 1.0, 5.0]))
    c["below"] = draw(st.booleans())
    c["extra"] = draw(st.sampled_from([-2, -1, 1, 2, 7]))
    c["radius"] = draw(st.sampled_from([0.0, -1.0, -1e-9, -5.0]))
    c["x"] = draw(gens.vec(d))
    c["seed"] = draw(st.lists(st.integers(1, 3), min_size=2, max_size=4))
    c["how"] = draw(st.sampled_from(["overlap", "swap", "hole", "descending", "repeat"]))
    c["at"] = draw(st.integers(0, 3))
    c["ints"] = draw(st.lists(st.integers(-5, 5), min_size=1, max_size=8))
    c["tag"] = draw(st.sampled_from(["fixed", "Adaptive", "", "backtrack", "line-search", "adaptive "]))
    return c


def check_objects(case, t):
    import copt
    k, n, d = case["kind"], case["n"], case["d"]
    A = gens.to_format(case["A"], case["fmt"])
    if k == "labels":
        b = np.array(case["b"])
        accept(lambda: copt.loss.LogLoss(A, b), "labels %s", b)
        b[case["i"]] = -case["off"] if case["below"] else 1 + case["off"]
        refuse(lambda: copt.loss.LogLoss(A, b), "labels %s", b)
    elif k == "rows":
        m = max(1, n + case["extra"])
        if m == n:
            m = n + 1
        y = np.full(n, 0.5)
        for name in ("LogLoss", "SquareLoss", "HuberLoss"):
            loss = getattr(copt.loss, name)
            for what, bad in (("%d labels" % m, np.full(m, 0.5)), ("one label", y[:1]), ("column of labels", y[:, None]),
                              ("row of labels", y[None, :])):
                if bad.size == n == 1 or bad.shape == (n,):
                    continue
                refuse(lambda: loss(A, bad)(np.array(case["x"])), "%s: %s for %d samples", name, what, n)
            accept(lambda: loss(A, y)(np.array(case["x"])), "%s: %d labels", name, n)
        from copt import minimize_vrtos
        refuse(lambda: minimize_vrtos(lambda p, y: p - y, A, np.full(m, 0.5), np.zeros(d), 0.1, max_iter=2),
               "vrtos with %d labels for %d samples", m, n)
    elif k == "groups":
        sizes = case["seed"]
        edges = np.cumsum([0] + sizes)
        good = [list(range(p, q)) for p, q in zip(edges, edges[1:])]
        accept(lambda: copt.penalty.GroupL1(0.5, good), "groups %s", good)
        bad = [list(g) for g in good]
        at = case["at"] % len(bad)
        how = case["how"]
        if how in ("hole", "descending", "repeat") and len(bad[at]) == 1:
            how = "overlap"
        if how == "overlap":
            at = max(1, at)
            bad[at] = [bad[at - 1][-1]] + bad[at]
        elif how == "swap":
            at = max(1, at)
            bad[at - 1], bad[at] = bad[at], bad[at - 1]
        elif how == "hole":
            bad[at] = bad[at][:-1] + [int(edges[-1]) + 5]
            bad = bad[:at + 1]
        elif how == "descending":
            bad[at] = bad[at][::-1]
        else:
            bad[at] = bad[at][:1] + bad[at]
        refuse(lambda: copt.penalty.GroupL1(0.5, bad), "groups %s", bad)
    elif k == "shape":
        for shape in ((d,), (1, d, 1), ()):
            refuse(lambda: copt.penalty.TraceNorm(1.0, shape), "TraceNorm of shape %r", shape)
            refuse(lambda: copt.constraint.TraceBall(1.0, shape), "TraceBall of shape %r", shape)
        x = np.array(case["x"])
        wrong = (d + 1, 1)
        refuse(lambda: copt.penalty.TraceNorm(1.0, wrong).prox(x, 1.0), "a point of %d entries for shape %s", d, wrong)
        refuse(lambda: copt.constraint.TraceBall(1.0, wrong).prox(x, 1.0), "a point of %d entries for shape %s", d, wrong)
        accept(lambda: copt.penalty.TraceNorm(1.0, (d, 1)).prox(x, 1.0), "shape %s", (d, 1))
    elif k == "radius":
        x = np.array(case["x"])
        r = case["radius"]
        refuse(lambda: copt.constraint.SimplexConstraint(r).prox(x, 1.0), "simplex of radius %r", r)
        refuse(lambda: copt.constraint.L1Ball(r).prox(x, 1.0), "l1 ball of radius %r", r)
        if r < 0:
            for name in ("LinfBall", "L2Ball", "L1Ball", "SimplexConstraint"):
                ball = getattr(copt.constraint, name)
                refuse(lambda: ball(r).prox(x, 1.0), "%s of radius %r", name, r)
                if hasattr(ball, "lmo"):
                    refuse(lambda: ball(r).lmo(x, np.zeros(d)), "oracle of %s of radius %r", name, r)
            refuse(lambda: copt.constraint.TraceBall(r, (d, 1)).lmo(x, np.zeros(d)), "oracle of the trace ball of radius %r", r)
        accept(lambda: copt.constraint.LinfBall(0.0).prox(x, 1.0), "LinfBall of radius 0")
        accept(lambda: copt.constraint.L2Ball(0.0).prox(x, 1.0), "L2Ball of radius 0")
        accept(lambda: copt.constraint.SimplexConstraint(1e-9).prox(x, 1.0), "simplex of radius 1e-9")
    elif k == "dims":
        x = np.array(case["x"]).reshape(1, -1)
        refuse(lambda: copt.constraint.euclidean_proj_simplex(x), "a matrix on the simplex")
        refuse(lambda: copt.constraint.euclidean_proj_l1ball(x), "a matrix on the l1 ball")
    elif k == "tv":
        w = np.array(case["ints"])
        refuse(lambda: copt.tv_prox.prox_tv1d(w, 1.0), "an integer signal for prox_tv1d")
        accept(lambda: copt.tv_prox.prox_tv1d(w.astype(float), 1.0), "a float signal for prox_tv1d")
    else:
        P = copt.utils.parse_step_size
        refuse(lambda: P(case["tag"]), "step size %r", case["tag"])
        s = case["off"]
        ensure(tuple(P(s)) == (s, "fixed"), "parse_step_size(%r) = %r", s, P(s))
        ensure(tuple(P("adaptive")) == (1, "adaptive"), "parse_step_size('adaptive') = %r", P("adaptive"))
        ensure(tuple(P((s, "adaptive"))) == (s, "adaptive"), "parse_step_size of a pair = %r", P((s, "adaptive")))
        f = lambda dl: 1.0
        ensure(tuple(P(f)) == (1, f), "parse_step_size of a callable = %r", P(f))
    t.hit(True, k)


# ------------------------------------------------------------- solvers

@st.composite
def solver_case(draw):
    c = draw(zoo.case(names=["pgd", "apgd", "tos", "pdhg", "fw", "pfw", "saga", "svrg", "vrtos", "sfw"]))
    s = c["solver"]
    kinds = {"pgd": ["step", "ls", "jac"], "apgd": ["step", "ls", "jac"], "tos": ["ls"], "pdhg": ["ls"],
             "fw": ["tol", "variant", "step", "DR", "jac"], "pfw": ["tol", "variant", "step", "DR", "large", "jac"],
             "saga": ["none", "dims"], "svrg": ["none", "dims"], "vrtos": ["negative", "dims"],
             "sfw": ["variant", "lmo_variant", "step", "DR", "dims", "batch"]}[s]
    c["bad"] = draw(st.sampled_from(kinds))
    c["word"] = draw(st.sampled_from(["", "Backtracking", "dr", "line-search", "sublinear ", "adaptive", "Vanilla", "away",
                                      "pair-wise", "saga", "SVRG", "sag", None, 3, 0.5]))
    c["count"] = draw(st.sampled_from([0, -1, -10]))
    c["neg"] = draw(st.sampled_from([-1e-12, -1.0, -1e9]))
    c["factor"] = draw(st.sampled_from([1.001, 1.5, 3.0]))
    c["at"] = draw(st.integers(0, 2))
    return c


def check_dims(case, x0):
    """labels, start or penalty for another number of samples or features"""
    import copt
    s, A, b = case["solver"], gens.to_format(case["A"], ["dense", "csr", "csc"][case["at"]]), np.array(case["b"])
    n, d = A.shape

    def go(b=b, x0=x0, features=None):
        np.random.seed(0)
        f = lambda p, y: p - y
        if s == "sfw":
            return copt.minimize_sfw(f, A, b, x0, fw.build(case["set"]), max_iter=2, tol=0.0)
        kw = {}
        if features is not None:
            kw["prox_1" if s == "vrtos" else "prox"] = copt.penalty.L1Norm(0.1).prox_factory(features)
        solver = {"saga": copt.minimize_saga, "svrg": copt.minimize_svrg, "vrtos": copt.minimize_vrtos}[s]
        return solver(f, A, b, x0, 0.01, max_iter=2, tol=0.0, **kw)
    accept(go, "%s with %d labels and a start of %d entries", s, n, d)
    for k in (1, 2):
        refuse(lambda: go(b=np.append(b, b[:1].repeat(k))), "%s with %d labels for %d samples", s, n + k, n)
        refuse(lambda: go(x0=np.append(x0, np.zeros(k))), "%s with a start of %d entries for %d features", s, d + k, d)
        if n > k:
            refuse(lambda: go(b=b[:-k]), "%s with %d labels for %d samples", s, n - k, n)
        if d > k:
            refuse(lambda: go(x0=x0[:-k]), "%s with a start of %d entries for %d features", s, d - k, d)
        if s != "sfw":
            refuse(lambda: go(features=d + k), "%s with a penalty on %d features for %d features", s, d + k, d)
            if d > k:
                refuse(lambda: go(features=d - k), "%s with a penalty on %d features for %d features", s, d - k, d)
    if s != "sfw":
        accept(lambda: go(features=d), "%s with a penalty on %d features", s, d)


def check_solvers(case, t):
    import copt
    s, bad, d = case["solver"], case["bad"], case["d"]
    x0 = np.array(case["x0"])
    keep = x0.copy()
    word = case["word"]

    def go(c=case, **kw):
        return zoo.solve(c, x0=x0, tol=kw.pop("tol", 1e-9), max_iter=3, **kw)
    accept(lambda: go(tol=0.0), "%s with valid arguments", s)
    if bad == "ls":
        name = "max_iter_ls" if s == "pdhg" else "max_iter_backtracking"
        refuse(lambda: go(**{name: case["count"]}), "%s with %s=%r", s, name, case["count"])
        accept(lambda: go(**{name: 100}), "%s with %s=100", s, name)
    elif bad == "jac":
        jac = word if isinstance(word, str) else "3-point"
        ref = refs.Loss(case, np.float64)
        refuse(lambda: go(fun=ref.value, jac=jac), "%s with jac=%r", s, jac)
    elif bad == "tol":
        refuse(lambda: go(tol=case["neg"]), "%s with tol=%r", s, case["neg"])
    elif bad == "none":
        solver = copt.minimize_saga if s == "saga" else copt.minimize_svrg
        refuse(lambda: solver(lambda p, y: p - y, np.array(case["A"]), np.array(case["b"]), x0, None, max_iter=2),
               "%s without step size", s)
    elif bad == "negative":
        refuse(lambda: copt.minimize_vrtos(lambda p, y: p - y, np.array(case["A"]), np.array(case["b"]), x0,
                                           min(case["neg"], -1e-6), max_iter=2), "vrtos with a negative step size")
    elif bad == "dims":
        check_dims(case, x0)
    elif bad == "batch":
        A, b = np.array(case["A"]), np.array(case["b"])
        n = len(b)

        def batches(k):
            np.random.seed(0)
            return copt.minimize_sfw(lambda p, y: p - y, A, b, x0, fw.build(case["set"]), batch_size=k, max_iter=2, tol=0.0)
        wrong = case["count"] if case["count"] <= 0 and case["at"] else n + 1 + case["at"]
        refuse(lambda: batches(wrong), "sfw with batches of %d out of %d samples", wrong, n)
        accept(lambda: batches(n), "sfw with batches of all %d samples", n)
    elif bad == "large":
        check_large(case, t)
    elif s == "sfw":
        A, b = np.array(case["A"]), np.array(case["b"])
        kw = dict(batch_size=case["batch"], max_iter=2, tol=0.0)
        kw.update({"variant": {"variant": word}, "lmo_variant": {"lmo_variant": word},
                   "step": {"step_size": word}, "DR": {"step_size": "DR"}}[bad])
        np.random.seed(0)
        refuse(lambda: copt.minimize_sfw(lambda p, y: p - y, A, b, x0, fw.build(case["set"]), **kw),
               "sfw with %r", {k: v for k, v in kw.items() if k not in ("batch_size", "max_iter", "tol")})
    else:
        f = gens.build_loss(case)
        if s in ("fw", "pfw"):
            # a start that is already optimal returns before any step
            g = f.f_grad(x0)[1]
            if fw.support(case["set"], -g) + g @ x0 <= 1e-6:
                t.label("optimal start")
                return
            pair = s == "pfw"
            kw = dict(jac=True, max_iter=3, tol=0.0)
            if pair:
                kw.update(variant="pairwise", x0_rep=fw.vertex(case["set"], d, case["vertex"])[1])
            kw.update({"variant": {"variant": word}, "step": {"step": word}, "DR": {"step": "DR"}}[bad])
            refuse(lambda: copt.minimize_frank_wolfe(f.f_grad, x0, fw.build(case["set"], pair, d), **kw),
                   "%s with %s %r", s, bad, kw.get("variant" if bad == "variant" else "step"))
        else:
            prox = gens.prox_of(case["pen"])
            step = word
            if s == "pgd" and step is None:
                step = "none"
            refuse(lambda: copt.minimize_proximal_gradient(f.f_grad, x0, prox, jac=True, step=step, max_iter=3,
                                                           accelerated=s == "apgd"), "%s with step=%r", s, step)
    ensure(np.array_equal(x0, keep), "%s changed x0 although it refused the call", s)
    t.hit(True, s + " " + bad)


def check_large(case, t):
    """a step beyond the weight of the away vertex cannot keep the set feasible"""
    import copt
    f = gens.build_loss(case)
    d = case["d"]
    n = [0]

    def step(dl):
        n[0] += 1
        if n[0] > case["at"]:
            return case["factor"] * dl["max_step_size"]
        return 0.5 * dl["max_step_size"]
    x0 = np.array(case["x0"])
    g = fw.Recorder(fw.build(case["set"], True, d))

    def go():
        return copt.minimize_frank_wolfe(f.f_grad, x0, g, jac=True, step=step, max_iter=8, tol=1e-9, variant="pairwise",
                                         x0_rep=fw.vertex(case["set"], d, case["vertex"])[1])
    try:
        go()
    except REFUSED:
        return
    # stopped before the large step, or it went from a vertex to itself
    ensure(n[0] <= case["at"] or all(c[4] == c[5] for c in g.calls[case["at"]:n[0]]),
           "a pairwise step %g times the longest one is accepted", case["factor"])


SUBS = [
    Sub("objects", object_case(), check_objects, 1500, rule="every case"),
    Sub("solvers", solver_case(), check_solvers, 1200, rule="every case except optimal starts"),
]
