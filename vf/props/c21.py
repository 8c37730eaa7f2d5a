"""The representation of the inputs does not matter."""
import numpy as np
from hypothesis import strategies as st
from scipy import sparse

from .. import fw, gens, refs, solvers, zoo
from ..core import Sub, arr, close, ensure, num

RULE = ("the same problem given to each solver with its data in another storage format, type or memory layout and its "
        "start as list, tuple, integer, single precision, strided or read-only array; losses, penalties and oracles on "
        "views of the same point.")

X0 = ["array", "list", "tuple", "int", "float32", "strided", "reversed", "readonly", "column-major"]
AFMT = ["dense", "F", "strided", "readonly", "int", "float32", "csr", "csc", "coo", "lil", "dok", "bsr", "dia", "csr_int",
        "csr_unsorted", "csr_array", "csr_idx64", "dup", "csr_readonly", "int8", "uint8", "bool", "csr_int8", "csr_bool"]
FLATTEN = ["pgd", "apgd", "sfw"]          # the solvers that take starts of any shape
MATRIX = ["column vector", "row vector", "matrix"]
BFMT = ["array", "int", "float32", "strided", "readonly", "int8", "uint8", "bool"]
NARROW = {"int8": np.int8, "uint8": np.uint8, "bool": bool}


def layout(v, how):
    """the same numbers in another array"""
    a = np.array(v, dtype=float)
    if how == "list":
        return a.tolist()
    if how == "tuple":
        return tuple(a.tolist())
    if how == "int":
        return a.astype(int)
    if how in NARROW:
        return a.astype(NARROW[how])
    if how == "float32":
        return a.astype(np.float32)
    if how == "strided":
        big = np.full(tuple(2 * k for k in a.shape), 7.7)
        view = big[tuple(slice(None, None, 2) for _ in a.shape)]
        view[...] = a
        return view
    if how == "reversed":
        return np.ascontiguousarray(a[::-1])[::-1]
    if how == "readonly":
        a.flags.writeable = False
        return a
    if how in MATRIX:
        rows = {"column vector": a.size, "row vector": 1, "matrix": 2 if a.size % 2 == 0 else 1}[how]
        return a.reshape(rows, -1)
    if how == "column-major":
        return np.asfortranarray(a)
    return a


def data(M, how):
    A = np.array(M, dtype=float)
    if how in ("F",):
        return np.asfortranarray(A)
    if how in ("strided", "readonly", "int", "float32") or how in NARROW:
        return layout(A, how)
    if how in ("csr_int8", "csr_bool"):
        return sparse.csr_matrix(A.astype(NARROW[how[4:]]))
    if how == "csr_int":
        return sparse.csr_matrix(A.astype(int))
    if how == "csr_array":
        return sparse.csr_array(A)
    C = sparse.csr_matrix(A)
    if how == "csr_idx64":
        C.indices, C.indptr = C.indices.astype(np.int64), C.indptr.astype(np.int64)
        return C
    if how == "csr_readonly":
        for v in (C.data, C.indices, C.indptr):
            v.flags.writeable = False
        return C
    if how == "csr_unsorted":
        B = sparse.csr_matrix(A[:, ::-1])
        return sparse.csr_matrix((B.data, A.shape[1] - 1 - B.indices, B.indptr), shape=A.shape)
    return gens.to_format(M, how)


def exact_for(M, how):
    """can the numbers be written in this type?"""
    a = np.array(M, dtype=float)
    if how in ("int", "csr_int"):
        return np.array_equal(a, np.round(a))
    if how.replace("csr_", "") in NARROW:
        return bool(np.all(np.abs(a) <= 127)) and np.array_equal(a, a.astype(NARROW[how.replace("csr_", "")]).astype(float))
    if how == "float32":
        return np.array_equal(a, a.astype(np.float32).astype(float))
    return True


def pick(options, M):
    return st.sampled_from([h for h in options if exact_for(M, h)])


@st.composite
def case(draw):
    c = draw(zoo.case())
    if draw(st.booleans()):
        c["A"] = np.round(np.array(c["A"])).tolist()
        kind = draw(st.integers(0, 3))
        if kind:
            c["A"] = np.abs(c["A"]).tolist() if kind == 1 else np.sign(np.abs(c["A"])).tolist() if kind == 2 else c["A"]
        if c["loss"] != "log":
            c["b"] = np.round(np.array(c["b"])).tolist()
        for j in range(c["d"]):
            if not any(r[j] for r in c["A"]):
                c["A"][0][j] = 1.0
    if "set" not in c and draw(st.booleans()):
        c["x0"] = np.round(np.array(c["x0"])).tolist()
    c["hx"] = draw(pick(X0 + (MATRIX if c["solver"] in FLATTEN else []), c["x0"]))
    c["hA"] = draw(pick(AFMT, c["A"]))
    c["hb"] = draw(pick(BFMT, c["b"]))
    c["iters"] = draw(st.integers(1, 12))
    return c


def build(case, A, b):
    import copt
    a = gens.alpha_of(case)
    if case["loss"] == "log":
        return copt.loss.LogLoss(A, b, a)
    if case["loss"] == "square":
        return copt.loss.SquareLoss(A, b, a)
    return copt.loss.HuberLoss(A, b, a, case["delta"])


def run(case, A, b, x0, **kw):
    if case["solver"] in zoo.BATCH:
        return zoo.solve(case, x0=x0, f=build(case, A, b), **kw)
    return zoo.solve(case, x0=x0, A=A, b=b, **kw)


def check(case, t):
    s, d = case["solver"], case["d"]
    A, b, x0 = np.array(case["A"]), np.array(case["b"]), np.array(case["x0"])
    what = "%s with A %s, b %s, x0 %s" % (s, case["hA"], case["hb"], case["hx"])
    plain = dict(tol=0.0, max_iter=case["iters"])
    p = run(case, A, b, x0.copy(), **plain)
    xp = solvers.solution(p, (d,), s)
    # the start alone: nothing else differs, hence exactly the same run
    q = run(case, A, b, layout(x0, case["hx"]), **plain)
    xq = solvers.solution(q, (d,), what)
    ensure(np.asarray(q.x).dtype == np.asarray(p.x).dtype, "%s: solution of type %s instead of %s", what,
           np.asarray(q.x).dtype, np.asarray(p.x).dtype)
    ensure(np.array_equal(xp, xq) and p.nit == q.nit, "%s: %s, with a plain start %s", what, xq.tolist(), xp.tolist())
    A2, b2 = data(case["A"], case["hA"]), layout(b, case["hb"])
    x2 = layout(x0, case["hx"])
    if s in ("fw", "pfw", "sfw"):
        check_oracle(case, A, b, x0, A2, b2, x2, what)
    elif s in zoo.STOCHASTIC:
        if case["hA"] not in ("bsr", "dia"):
            # explicit zeros belong to the support of a sample
            r = run(case, A2, b2, x2, **plain)
            close(solvers.solution(r, (d,), what), xp, 1e-9 * (1 + np.abs(xp).max() + np.abs(x0).max()), what)
    else:
        L = gens.lipschitz_of(case)
        # line searches stop making progress at about 1e-8 of the scale
        kw = dict(tol=1e-9, max_iter=5000) if s == "pdhg" else dict(tol=(1e-8 if s == "tos" else 1e-6) * L, max_iter=20000)
        r1, r2 = run(case, A, b, x0.copy(), **kw), run(case, A2, b2, x2, **kw)
        # the primal-dual method can be slow, and the last iterations may then differ
        slow = s == "pdhg" and not (r1.success and r2.success)
        ensure(slow or r1.success == r2.success, "%s: success %s, with plain inputs %s", what, r2.success, r1.success)
        x1, x2 = solvers.solution(r1, (d,), s), solvers.solution(r2, (d,), what)
        close(x2, x1, (1e-2 if slow else 1e-3) * (1 + np.abs(x1).max()), what)
    t.hit(np.max(np.abs(xp - x0)) > 1e-9 and (case["hA"], case["hx"], case["hb"]) != ("dense", "array", "array"), s)
    t.label("A " + case["hA"], "x0 " + case["hx"], "b " + case["hb"])


def check_oracle(case, A, b, x0, A2, b2, x2, what):
    """the oracle is asked the same questions, until a tie is broken differently"""
    pair = case["solver"] == "pfw"
    recs = []
    c = dict(case)
    if c["solver"] != "sfw" and c["step"] == "backtracking":
        c["step"] = "DR"            # the line search decides by rounding close to the solution
    for args in ((A, b, x0.copy()), (A2, b2, x2)):
        rec = fw.Recorder(fw.build(c["set"], pair, c["d"]))
        res = run(c, *args, tol=0.0, max_iter=c["iters"], lmo=rec)
        recs.append((rec.calls, solvers.solution(res, (c["d"],), what)))
    (one, xa), (two, xb) = recs
    s = 1 + np.abs(A).max() * (np.abs(A).max() * fw.radius(c["set"]) * c["d"] + np.abs(b).max() + 1) + gens.alpha_of(case)
    r = 1 + fw.radius(c["set"])
    for k, (p, q) in enumerate(zip(one, two)):
        close(q[0], p[0], 1e-8 * s, "%s: direction given to call %d of the oracle", what, k)
        close(q[1], p[1], 1e-8 * r, "%s: iterate given to call %d of the oracle", what, k)
        if np.max(np.abs(p[2] - q[2])) > 1e-6 * r:
            ensure(abs(p[0] @ (p[2] - q[2])) <= 1e-6 * s * r, "%s: the oracle answers differ at call %d without a tie",
                   what, k)
            return
        if c["step"] == "DR" and (p[2] @ p[2] <= 1e-9 * r * r or p[0] @ p[2] <= 1e-7 * s * r):
            return                  # steps of DR are quotients of these two
    ensure(len(one) == len(two), "%s: %d oracle calls, with plain inputs %d", what, len(two), len(one))
    close(xb, xa, 1e-8 * r, what)


# ----------------------------------------------------------------- objects

@st.composite
def object_case(draw):
    c = draw(gens.loss_case(n_max=5, d_max=6))
    c["pen"] = draw(gens.penalty_case(c["d"], [k for k in gens.EXACT if k != "none"] + ["tv2d"]))
    c["x"] = draw(gens.vec(c["d"], ("dyadic", "decimal", "tied")))
    c["y"] = draw(gens.vec(c["d"]))
    if draw(st.integers(0, 2)) == 0:
        c["x"] = np.round(3 * np.array(c["x"])).tolist()
        c["y"] = np.round(3 * np.array(c["y"])).tolist()
    c["step"] = draw(st.sampled_from([1, 2, 0.5]))
    c["hx"] = draw(pick(["strided", "reversed", "readonly", "int"], [c["x"], c["y"]]))
    c["hA"] = draw(pick(AFMT, c["A"]))
    c["hb"] = draw(pick(BFMT, c["b"]))
    c["hg"] = draw(st.sampled_from(["array", "tuple", "tuples", "range", "iterator", "int8"]))
    return c


def grouped(groups, how):
    """the same groups in another container"""
    if how == "tuple":
        return tuple(list(g) for g in groups)
    if how == "tuples":
        return tuple(tuple(g) for g in groups)
    if how == "range":
        return [range(g[0], g[-1] + 1) for g in groups]
    if how == "iterator":
        return iter([list(g) for g in groups])
    return [np.array(g, dtype=np.int8 if how == "int8" else int) for g in groups]


def check_objects(case, t):
    d = case["d"]
    x, y = np.array(case["x"]), np.array(case["y"])
    v = layout(x, case["hx"])
    what = "A %s, b %s, x %s" % (case["hA"], case["hb"], case["hx"])
    f = build(case, np.array(case["A"]), np.array(case["b"]))
    g = build(case, data(case["A"], case["hA"]), layout(case["b"], case["hb"]))
    s = np.abs(np.array(case["A"])).max() + 1
    s = s * (s * np.abs(x).sum() + np.abs(np.array(case["b"])).max() + 1) + gens.alpha_of(case) * np.abs(x).max()
    fv, fg = f.f_grad(x)
    gv, gg = g.f_grad(v)
    close(num(gv), num(fv), 1e-11 * s * (1 + np.abs(x).sum() + s), "loss value, %s", what)
    close(arr(gg, (d,)), arr(fg, (d,)), 1e-11 * s, "gradient, %s", what)
    close(num(g(v)), num(fv), 1e-11 * s * (1 + np.abs(x).sum() + s), "loss called, %s", what)
    if case["loss"] == "log":
        close(arr(g.hessian_mv(v)(layout(y, case["hx"])), (d,)), arr(f.hessian_mv(x)(y), (d,)),
              1e-10 * s * s * (1 + np.abs(y).sum()), "Hessian product, %s", what)
    p = gens.build_penalty(case["pen"])
    c2 = dict(case["pen"])
    if "groups" in c2:
        c2["groups"] = grouped(c2["groups"], case["hg"])
    q = gens.build_penalty(c2)
    r = 1 + np.abs(x).max()
    if case["hx"] != "int" or case["pen"]["kind"] != "fused":       # which refuses whole numbers
        close(arr(q.prox(v, float(case["step"])), (d,)), arr(p.prox(x, case["step"]), (d,)), 1e-9 * r,
              "prox of %s, x %s", case["pen"]["kind"], case["hx"])
    ensure(np.array_equal(np.asarray(v), x), "prox of %s changed its argument", case["pen"]["kind"])
    if case["pen"]["kind"] in gens.PENALTIES + ["tv2d"]:
        close(num(q(v)), num(p(x)), 1e-10 * r * d * (1 + case["pen"]["lam"]), "value of %s", case["pen"]["kind"])
    if case["pen"]["kind"] == "group":
        out = []
        for z in (p, q):
            prox, B = z.prox_factory(d)
            k, w = B.shape[0], x.copy()
            prox(w, 0, np.arange(k), np.array([0, k]), np.ones(k), float(case["step"]))
            out.append(w)
        close(out[1], out[0], 1e-12 * r, "block operator with groups given as %s", case["hg"])
    if hasattr(p, "lmo") and case["pen"]["kind"] != "traceball":
        close(arr(q.lmo(v, layout(y, case["hx"]))[0], (d,)), arr(p.lmo(x, y)[0], (d,)), 0.0, "oracle of %s",
              case["pen"]["kind"])
    t.hit(True, case["pen"]["kind"])
    t.label("A " + case["hA"], "x " + case["hx"], case["loss"])


SUBS = [
    Sub("solvers", case(), check, 900, rule="the solver moves and something is represented differently"),
    Sub("objects", object_case(), check_objects, 1200, rule="every case"),
]
