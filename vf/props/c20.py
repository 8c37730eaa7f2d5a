"""Calls are pure: inputs untouched, no hidden state, reproducible."""
import contextlib
import copy
import io
import sys
import threading

import numpy as np
from hypothesis import strategies as st
from scipy import sparse

from .. import gens, solvers, zoo
from ..core import Sub, arr, ensure, num, unchanged

RULE = ("random problems for each solver with other runs in between; random sequences of operations "
        "on one loss, penalty or constraint object; every array given is compared before and after.")


def freeze(o):
    """comparable copy of an input"""
    if sparse.issparse(o):
        parts = [getattr(o, k, None) for k in ("data", "indices", "indptr", "row", "col", "offsets")]
        return ("sparse", o.format, o.shape, o.toarray().tobytes(),
                [v.tobytes() for v in parts if isinstance(v, np.ndarray) and v.dtype != object])
    if isinstance(o, np.ndarray):
        return ("array", o.dtype.str, o.shape, o.tobytes())
    return copy.deepcopy(o)


@st.composite
def run_case(draw):
    c = draw(zoo.case())
    c["fmt"] = draw(st.sampled_from(gens.FORMATS + ["dup"]))
    c["other"] = draw(zoo.case(n_max=4, d_max=3))
    c["max_iter"] = draw(st.integers(1, 20))
    c["share"] = draw(st.booleans())
    return c


def outcome(res, d, s):
    out = [solvers.solution(res, (d,), s).tobytes(), int(res.nit), bool(res.success)]
    if "certificate" in res:
        out.append(float(res.certificate))
    return out


def check_run(case, t):
    s, d = case["solver"], case["d"]
    A, b, x0 = gens.to_format(case["A"], case["fmt"]), np.array(case["b"]), np.array(case["x0"])
    pens = None
    if "set" not in case:
        pens = [gens.build_penalty(p) for p in zoo.terms(case)]
    f = gens.build_loss(case, case["fmt"])
    kept = [freeze(o) for o in (A, b, x0)] + [freeze(np.asarray(f.b)), freeze(f.A)]
    kw = dict(A=A, b=b, x0=x0, f=f, tol=0.0, max_iter=case["max_iter"])
    if s in zoo.BATCH:
        kw.pop("A"), kw.pop("b")

    def again(**more):
        q = dict(kw, **more)
        return zoo.solve(case, penalties=pens if case["share"] else None, **q)
    r1 = again()
    first = outcome(r1, d, s)
    now = [freeze(o) for o in (A, b, x0)] + [freeze(np.asarray(f.b)), freeze(f.A)]
    for name, p, q in zip(("A", "b", "x0", "b of the loss", "A of the loss"), kept, now):
        ensure(p == q, "%s changed %s", s, name)
    # unrelated work and a change to what was returned must not matter
    zoo.solve(case["other"], max_iter=5, tol=0.0)
    keep_x = np.array(r1.x)
    r1.x[...] = -77.0
    ensure(freeze(x0) == kept[2] and freeze(A) == kept[0], "%s returned a view of its inputs", s)
    ensure(outcome(again(), d, s) == first, "%s: the same call gave different results", s)
    fresh = zoo.solve(case, **dict(kw, f=gens.build_loss(case, case["fmt"]), x0=x0.copy()))
    ensure(outcome(fresh, d, s) == first, "%s: results depend on the history of the loss or penalty", s)
    t.hit(np.max(np.abs(keep_x - x0)) > 1e-9, s)
    t.label(case["fmt"], "shared objects" if case["share"] else "")


@st.composite
def nested_case(draw):
    c = draw(zoo.case())
    c["max_iter"] = draw(st.integers(2, 15))
    c["at"] = draw(st.sets(st.integers(0, 6), min_size=1, max_size=3).map(sorted))
    kind = draw(st.sampled_from(["same problem", "same solver", "any"]))
    c["inner"] = kind
    if kind != "same problem":
        c["other"] = draw(zoo.case(zoo.ALL if kind == "any" else [c["solver"]], n_max=4, d_max=3))
    return c


def check_nested(case, t):
    """a run inside of the callback of another one"""
    s, d = case["solver"], case["d"]
    f = gens.build_loss(case)
    pens = None
    if "set" not in case:
        pens = [gens.build_penalty(p) for p in zoo.terms(case)]
    kw = dict(tol=0.0, max_iter=case["max_iter"], penalties=pens)
    alone = zoo.solve(case, f=f, callback=lambda dl: None, **kw)
    first = outcome(alone, d, s)
    calls, inner = [0], []

    def callback(dl):
        calls[0] += 1
        if calls[0] - 1 in case["at"]:
            state = np.random.get_state()
            if case["inner"] == "same problem":
                inner.append(outcome(zoo.solve(case, f=f, callback=lambda dl: None, **kw), d, s))
            else:
                zoo.solve(case["other"], tol=0.0, max_iter=7)
            np.random.set_state(state)
    res = zoo.solve(case, f=f, callback=callback, **kw)
    ensure(outcome(res, d, s) == first, "%s: another run inside of the callback changes the result", s)
    for o in inner:
        ensure(o == first, "%s: a run inside of the callback of another one gives another result", s)
    t.hit(any(i < calls[0] for i in case["at"]) and calls[0] > 1 and np.max(np.abs(alone.x - np.array(case["x0"]))) > 1e-9, s)
    t.label(case["inner"])


# ------------------------------------------------------------ operators that work in place

class InPlace:
    """a penalty whose operator overwrites the array it is given"""

    def __init__(self, pen):
        self.pen = pen

    def prox(self, x, step_size):
        x[...] = self.pen.prox(x.copy(), step_size)
        return x


@st.composite
def inplace_case(draw):
    c = draw(zoo.case(["pgd", "apgd", "tos", "pdhg"]))
    c["max_iter"] = draw(st.integers(1, 30))
    return c


def check_inplace(case, t):
    s, d = case["solver"], case["d"]
    pens = [gens.build_penalty(p) for p in zoo.terms(case)]
    kw = dict(tol=0.0, max_iter=case["max_iter"])
    want = outcome(zoo.solve(case, penalties=pens, **kw), d, s)
    x0 = np.array(case["x0"])
    res = zoo.solve(case, x0=x0, penalties=[p and InPlace(p) for p in pens], **kw)
    ensure(np.array_equal(x0, np.array(case["x0"])), "%s hands x0 itself to a proximal operator, which changed it", s)
    ensure(outcome(res, d, s) == want, "%s: another result when proximal operators overwrite their argument", s)
    t.hit(any(p is not None for p in pens) and np.any(res.x != x0), s)


# ------------------------------------------------------------ what a process shares

def same_state(p, q):
    return p[0] == q[0] and np.array_equal(p[1], q[1]) and p[2:] == q[2:]


@st.composite
def shared_case(draw):
    c = draw(zoo.case())
    c["max_iter"] = draw(st.integers(1, 12))
    c["other_seed"] = draw(st.integers(0, 10 ** 6))
    c["verbose"] = draw(st.sampled_from([0, 0, 1]))
    return c


def check_shared(case, t):
    """settings of the process and the global random generator"""
    s = case["solver"]

    def one(seed):
        with contextlib.redirect_stdout(io.StringIO()):
            res = zoo.solve(dict(case, rng=seed), max_iter=case["max_iter"], tol=0.0, verbose=case["verbose"])
        return res, np.random.get_state()
    res, after = unchanged(lambda: one(case["rng"]), s)
    if s in zoo.STOCHASTIC:
        if case["rng"] != case["other_seed"]:
            ensure(not same_state(after, one(case["other_seed"])[1]), "%s seeds the global random generator", s)
    elif case.get("set", {}).get("kind") != "traceball":
        # zoo.solve seeds the generator first
        np.random.seed(case["rng"])
        ensure(same_state(np.random.get_state(), after), "%s draws from the global random generator", s)
    t.hit(np.max(np.abs(np.asarray(res.x) - np.array(case["x0"]))) > 1e-9, s)


@st.composite
def threads_case(draw):
    runs = draw(st.lists(zoo.case([s for s in zoo.BATCH]), min_size=2, max_size=4))
    for c in runs:
        if c.get("set", {}).get("kind") == "traceball":
            # the start of the iteration for singular vectors is random
            c["set"] = {"kind": "l1ball", "radius": 1.0}
            c["x0"] = [0.0] * c["d"]
    return {"runs": runs, "copies": draw(st.integers(1, 2)), "max_iter": draw(st.integers(3, 15)), "share": draw(st.booleans())}


def check_threads(case, t):
    """runs in several threads at the same time"""
    jobs = []
    for c in case["runs"]:
        f = gens.build_loss(c)
        pens = None if "set" in c else [gens.build_penalty(p) for p in zoo.terms(c)]

        def job(c=c, f=f, pens=pens):
            if not case["share"]:
                f, pens = gens.build_loss(c), None
            with np.errstate(all="ignore"):
                return outcome(zoo.solve(c, f=f, penalties=pens, tol=0.0, max_iter=case["max_iter"]), c["d"], c["solver"])
        jobs.append((c, job, job()))
    got, every = [], sys.getswitchinterval()
    gate = threading.Barrier(len(jobs) * (case["copies"] + 1))

    def work(c, job, want):
        gate.wait()
        for _ in range(3):
            try:
                got.append((c["solver"], job() == want, ""))
            except Exception as e:
                got.append((c["solver"], False, repr(e)))
    threads = [threading.Thread(target=work, args=j) for j in jobs for _ in range(case["copies"] + 1)]
    sys.setswitchinterval(1e-5)
    try:
        for th in threads:
            th.start()
        for th in threads:
            th.join()
    finally:
        sys.setswitchinterval(every)
    for s, ok, why in got:
        ensure(ok, "%s: the result differs when other runs go on in other threads %s", s, why)
    t.hit(len(got) == 3 * len(threads) and len(jobs) > 1)
    t.label(*{c["solver"] for c in case["runs"]})


# ------------------------------------------------------------ operation sequences

@st.composite
def ops_case(draw):
    c = draw(gens.loss_case(n_max=5, d_max=6))
    d = c["d"]
    c["fmt"] = draw(st.sampled_from(gens.FORMATS + ["dup"]))
    c["pen"] = draw(gens.penalty_case(d, [k for k in gens.EXACT if k != "none"] + ["tv2d"]))
    c["points"] = draw(st.lists(gens.vec(d), min_size=2, max_size=3))
    c["steps"] = draw(st.lists(gens.mild_positive, min_size=2, max_size=2))
    c["ops"] = draw(st.lists(st.tuples(
        st.sampled_from(["f_grad", "value", "call", "prox", "pen", "lmo", "hess", "hess", "lipschitz", "factory"]),
        st.integers(0, 2), st.integers(0, 1)), min_size=4, max_size=14))
    c["hold"] = draw(st.booleans())
    return c


def apply(op, f, pen, x, j, case, held):
    """the value of one operation, as bytes; x is handed over uncopied"""
    d, s = case["d"], case["steps"][j]
    if op == "f_grad":
        v, g = f.f_grad(x)
        return [num(v), arr(g, (d,)).tobytes()], g
    if op == "value":
        return [num(f.f_grad(x, return_gradient=False))], None
    if op == "call":
        return [num(f(x))], None
    if op == "prox":
        out = pen.prox(x, s)
        return [arr(out, (d,)).tobytes()], out if out is not x else None
    if op == "pen":
        return [float(pen(x))] if hasattr(pen, "__call__") else [], None
    if op == "lmo":
        if not hasattr(pen, "lmo") or case["pen"]["kind"] == "traceball":
            # singular vectors come from an iteration with a random start
            return [], None
        out = pen.lmo(x, 0 * x)[0]
        return [arr(out, (d,)).tobytes()], out
    if op == "hess":
        if not hasattr(f, "hessian_mv"):
            return [], None
        # operators of several points live at the same time
        H = held.setdefault(x.tobytes(), None) or f.hessian_mv(x)
        held[x.tobytes()] = H
        y = np.ones(d) if j == 0 else np.arange(1.0, d + 1)
        z = y.copy()
        out = H(y)
        ensure(np.array_equal(y, z), "a Hessian-vector product changed its argument")
        return [arr(out, (d,)).tobytes()], out
    if op == "lipschitz":
        return [num(f.lipschitz)], None
    kind = case["pen"]["kind"]
    if kind not in ("l1", "group", "fused"):
        return [], None
    # an object is reused with another number of features
    n = d + (0, 3)[j]
    y = np.resize(x, n)
    out = []
    for make in [pen.prox_1_factory, pen.prox_2_factory] if kind == "fused" else [pen.prox_factory]:
        prox, B = make(n)
        nb = B.shape[0]
        prox(y, 0, np.arange(nb), np.array([0, nb]), np.ones(nb), s)
        out += [y.tobytes(), freeze(B)]
    return out, None


def same(op, p, q):
    """bitwise, except for singular values, whose iteration starts at random"""
    if op == "lipschitz":
        return abs(p[0] - q[0]) <= 1e-4 * abs(p[0])
    return p == q


def check_ops(case, t):
    f, pen = gens.build_loss(case, case["fmt"]), gens.build_penalty(case["pen"])
    pts = [np.array(p) for p in case["points"]]
    kept = [freeze(p) for p in pts]
    kf = (freeze(f.A), freeze(np.asarray(f.b)))
    seen, held, results = {}, {}, []
    for op, i, j in case["ops"]:
        i %= len(pts)
        out, ref = apply(op, f, pen, pts[i], j, case, held)
        ensure([freeze(p) for p in pts] == kept, "%s changed its argument", op)
        ensure((freeze(f.A), freeze(np.asarray(f.b))) == kf, "%s changed the data of the loss", op)
        key = (op, i, j if op in ("prox", "factory", "hess") else 0)
        if key in seen:
            ensure(same(op, seen[key], out), "%s gave two different results for the same arguments", op)
        else:
            fresh, _ = apply(op, gens.build_loss(case, case["fmt"]), gens.build_penalty(case["pen"]), pts[i].copy(),
                             j, case, {})
            ensure(same(op, fresh, out), "%s depends on what was called before", op)
        seen[key] = out
        # what was returned belongs to the caller, who overwrites or keeps it
        if isinstance(ref, np.ndarray) and ref.flags.writeable and not any(np.shares_memory(ref, p) for p in pts):
            if case["hold"]:
                results.append((op, ref, ref.copy()))
            else:
                ref[...] = 1e3
        for o, ref, copied in results:
            ensure(np.array_equal(ref, copied), "%s changed what %s had returned", op, o)
    t.hit(len(seen) > 2, case["pen"]["kind"])
    t.label(*{op for op, _, _ in case["ops"]})


SUBS = [
    Sub("runs", run_case(), check_run, 1200, rule="the solver moves"),
    Sub("nested", nested_case(), check_nested, 700, rule="the solver moves and another one runs inside"),
    Sub("settings", shared_case(), check_shared, 500, rule="the solver moves"),
    Sub("threads", threads_case(), check_threads, 120, rule="two or more runs at the same time"),
    Sub("inplace", inplace_case(), check_inplace, 500, rule="an operator is given and the solver moves"),
    Sub("operations", ops_case(), check_ops, 1500, rule="more than two different operations"),
]
