"""Loss values and gradients match their definitions, in every representation."""
import numpy as np
from hypothesis import strategies as st
from scipy import sparse

from .. import gens, refs
from ..core import Sub, arr, close, ensure, num

RULE = ("data matrices dense/Fortran/integer and in seven sparse formats, with empty rows "
        "and columns, single rows and columns; labels 0/1 and fractional; margins from 1e-6 "
        "to beyond overflow of exp; residuals on the Huber kink.")


NARROW = {"int": int, "int8": np.int8, "uint8": np.uint8, "bool": bool, "csr_int8": np.int8, "csr_bool": bool}


@st.composite
def case(draw):
    c = draw(gens.loss_case(n_max=7, d_max=6, ratio=False, zero_cols=True))
    c["alpha"] = draw(st.sampled_from([0.0, 0.0, 1e-3, 0.1, 1.0, 30.0]))
    c["x"] = draw(gens.vec(c["d"]))
    c["scale"] = draw(st.sampled_from([1e-6, 0.1, 1.0, 1.0, 1.0, 10.0, 10.0, 100.0, 1e4]))
    c["fmt"] = draw(st.sampled_from(gens.FORMATS + ["F", "dense", "csr", "dup"] + list(NARROW)))
    if c["loss"] == "huber":
        c["delta"] = draw(st.sampled_from([0.1, 0.25, 1.0, 1.0, 3.0]))
        c["kink"] = draw(st.booleans())
    return c


def in_type(case):
    """the case with data that its type can hold"""
    c = dict(case)
    if c["fmt"] == "int":
        c["A"] = np.round(np.array(c["A"])).tolist()
    elif c["fmt"] in NARROW:
        # whole numbers over the range of the type
        A = np.clip(np.round(40 * np.array(c["A"])), -127, 127)
        c["A"] = (np.sign(np.abs(A)) if "bool" in c["fmt"] else np.abs(A) if c["fmt"] == "uint8" else A).tolist()
    return c


def prepare(case):
    c = in_type(case)
    x = np.array(c["x"]) * c["scale"]
    if c.get("kink"):
        # put some residuals exactly at +-delta
        z = np.array(c["A"]) @ x
        c["b"] = [z[i] - c["delta"] * (1 if i % 2 else -1) if i % 3 else c["b"][i]
                  for i in range(c["n"])]
    return c, x


def tolerances(case, x, ref):
    A, b = np.abs(np.array(case["A"])), np.abs(np.array(case["b"]))
    z = A @ np.abs(x)                       # bound on the rounding of A x
    eps = 1e-13 * (case["d"] + 4)
    if case["loss"] == "square":
        r = z + b
        tv = eps * (np.mean(r * r) + case["alpha"] * (x @ x))
        tg = eps * (A.T @ r / case["n"] + case["alpha"] * np.abs(x))
    elif case["loss"] == "huber":
        r = z + b
        tv = eps * (np.mean(r * (case["delta"] + 1)) + np.mean(np.minimum(r, 1) ** 2) +
                    case["delta"] ** 2 + case["alpha"] * (x @ x))
        tg = eps * (A.T @ r / case["n"] + A.sum(0) * case["delta"] + case["alpha"] * np.abs(x))
    else:
        tv = eps * (np.mean(z) + 1 + case["alpha"] * (x @ x))
        tg = eps * (A.T @ (z + 1) / case["n"] + case["alpha"] * np.abs(x))
    return tv + 1e-300, tg + 1e-300


def build(case):
    fmt = case["fmt"]
    if fmt in NARROW:
        A = np.array(case["A"]).astype(NARROW[fmt])
        A = sparse.csr_matrix(A) if fmt.startswith("csr") else A
    else:
        A = gens.to_format(case["A"], fmt)
    b = np.array(case["b"], dtype=float)
    import copt
    a = case["alpha"]
    if case["loss"] == "log":
        return copt.loss.LogLoss(A, b, a), A, b
    if case["loss"] == "square":
        return copt.loss.SquareLoss(A, b, a), A, b
    return copt.loss.HuberLoss(A, b, a, case["delta"]), A, b


def evaluate(loss, x, ref, tv, tg):
    d = x.size
    keep = x.copy()
    out = loss.f_grad(x)
    ensure(isinstance(out, tuple) and len(out) == 2, "f_grad returned %r", type(out))
    v, g = num(out[0]), arr(out[1], (d,), "gradient")
    ensure(np.array_equal(x, keep), "evaluation changed the argument")
    want = ref.value(x)
    ensure(abs(v - want) <= tv, "value %r, expected %r (tolerance %g)", v, want, tv)
    for name, w in (("f_grad without gradient", loss.f_grad(x, return_gradient=False)),
                    ("call", loss(x))):
        ensure(abs(num(w, name) - want) <= tv, "%s gives %r, expected %r", name, w, want)
    wg = ref.grad(x)
    bad = np.abs(g - wg) > tg
    ensure(not bad.any(), "gradient %s, expected %s", g.tolist(), wg.tolist())
    return v, g


def check(case, t):
    case, x = prepare(case)
    loss, A, b = build(case)
    ref = refs.Loss(case)
    tv, tg = tolerances(case, x, ref)
    D0 = A.toarray() if sparse.issparse(A) else A.copy()
    evaluate(loss, x, ref, tv, tg)
    # other points, and back: evaluations do not influence one another
    evaluate(loss, np.zeros_like(x), ref, *tolerances(case, np.zeros_like(x), ref))
    evaluate(loss, x, ref, tv, tg)
    ensure(np.array_equal(b, np.array(case["b"])), "evaluation changed b")
    D = A.toarray() if sparse.issparse(A) else A
    ensure(np.array_equal(D, D0), "evaluation changed A")
    t.hit(np.any(x != 0) and np.any(np.array(case["A"]) != 0), case["loss"])
    z = np.abs(np.array(case["A"]) @ x)
    t.label(case["fmt"], "extreme margin" if np.any(z > 40) else "",
            "kink" if case.get("kink") else "")


@st.composite
def none_case(draw):
    n = draw(st.integers(1, 7))
    kind = draw(st.sampled_from(["log", "square"]))
    b = draw(gens.vec(n)) if kind == "square" else draw(
        st.lists(st.integers(0, 4).map(lambda k: k / 4.0), min_size=n, max_size=n))
    return {"loss": kind, "n": n, "d": n, "A": np.eye(n).tolist(), "b": b,
            "alpha": draw(st.sampled_from([0.0, 0.5])), "x": draw(gens.vec(n)),
            "scale": draw(st.sampled_from([1.0, 30.0]))}


def check_none(case, t):
    import copt
    x = np.array(case["x"]) * case["scale"]
    cls = copt.loss.LogLoss if case["loss"] == "log" else copt.loss.SquareLoss
    b = np.array(case["b"], dtype=float)
    loss = cls(None, b, case["alpha"])
    ref = refs.Loss(case)
    evaluate(loss, x, ref, *tolerances(case, x, ref))
    t.hit(np.any(x), case["loss"])


@st.composite
def pointwise_case(draw):
    kind = draw(st.sampled_from(["log", "square"]))
    m = draw(st.integers(1, 6))
    y = draw(st.lists(st.integers(0, 8).map(lambda k: k / 8.0), min_size=m, max_size=m)) \
        if kind == "log" else draw(gens.vec(m))
    return {"loss": kind, "p": draw(gens.vec(m, gens.KINDS)), "y": y}


def check_pointwise(case, t):
    """the scalar derivatives handed to the stochastic solvers"""
    import copt
    p, y = np.array(case["p"]), np.array(case["y"], dtype=float)
    m = p.size
    A = np.eye(m)
    loss = (copt.loss.LogLoss if case["loss"] == "log" else copt.loss.SquareLoss)(A, y, 0.7)
    kp, ky = p.copy(), y.copy()
    got = arr(loss.partial_deriv(p, y), (m,), "derivative")
    ensure(np.array_equal(p, kp) and np.array_equal(y, ky), "derivative changed its arguments")
    ref = refs.Loss({"loss": case["loss"], "A": A.tolist(), "b": case["y"], "alpha": 0.0})
    want = np.asarray(ref.derivative(p.astype(np.longdouble)), dtype=float)
    tol = 1e-13 * (1 + np.abs(p) + np.abs(y)) if case["loss"] == "square" else 1e-14 + 1e-13 * np.abs(want)
    ensure(np.all(np.abs(got - want) <= tol), "derivative %s, expected %s", got.tolist(), want.tolist())
    one = [arr(loss.partial_deriv(p[i:i + 1], y[i:i + 1]), (1,))[0] for i in range(m)]
    close(one, got, 1e-300, "derivative of one sample and of a batch")
    t.hit(np.any(p), case["loss"])
    t.label("extreme" if np.any(np.abs(p) > 700) else "")


@st.composite
def huge_case(draw):
    c = {"loss": draw(st.sampled_from(["log", "square", "huber"])), "n": draw(st.sampled_from([500, 5000, 33000, 70000])),
         "d": draw(st.sampled_from([5, 300, 40000, 70000])), "per": draw(st.integers(1, 8)), "delta": 1.0,
         "alpha": draw(st.sampled_from([0.0, 0.1])), "scale": draw(st.sampled_from([0.1, 1.0, 10.0, 300.0])),
         "fmt": draw(st.sampled_from(["csr", "csc", "coo", "dense"])), "seed": draw(st.integers(0, 10 ** 6))}
    if c["n"] * c["d"] > 2 * 10 ** 6 and c["fmt"] == "dense":
        c["fmt"] = "csr"
    return c


def check_huge(case, t):
    """sums over many samples and features"""
    import copt
    rng = np.random.RandomState(case["seed"])
    n, d, per, a = case["n"], case["d"], case["per"], case["alpha"]
    rows, cols = np.repeat(np.arange(n), per), rng.randint(0, d, n * per)
    A = sparse.csr_matrix((rng.randn(n * per), (rows, cols)), shape=(n, d))
    x = case["scale"] * rng.randn(d)
    p = A @ x
    b = rng.choice([0.0, 0.25, 1.0], n) if case["loss"] == "log" else p + rng.randn(n) * case["scale"]
    M = A.toarray() if case["fmt"] == "dense" else A.asformat(case["fmt"])
    if case["loss"] == "log":
        loss = copt.loss.LogLoss(M, b, a)
        v, g = (1 - b) * p + np.logaddexp(0, -p), 1 / (1 + np.exp(-np.clip(p, -700, 700))) - b
    elif case["loss"] == "square":
        loss = copt.loss.SquareLoss(M, b, a)
        v, g = 0.5 * (p - b) ** 2, p - b
    else:
        loss = copt.loss.HuberLoss(M, b, a, 1.0)
        r = np.abs(p - b)
        v, g = np.where(r <= 1, 0.5 * r * r, r - 0.5), np.clip(p - b, -1, 1)
    want, grad = v.mean() + 0.5 * a * (x @ x), A.T @ g / n + a * x
    got = loss.f_grad(x)
    ensure(abs(num(got[0]) - want) <= 1e-10 * (abs(want) + np.abs(p).mean()), "value %r, expected %r", got[0], want)
    close(arr(got[1], (d,), "gradient"), grad, 1e-10 * (np.abs(grad).max() + np.abs(x).max() * a + 1.0 / n), "gradient")
    t.hit(True, case["loss"])
    t.label(case["fmt"])


@st.composite
def intercept_case(draw):
    c = draw(gens.loss_case(losses=("log",), n_max=7, d_max=6, ratio=False, zero_cols=True))
    c["alpha"] = draw(st.sampled_from([0.0, 0.1, 1.0, 30.0]))
    c["x"] = draw(gens.vec(c["d"] + 1))
    c["scale"] = draw(st.sampled_from([0.1, 1.0, 1.0, 10.0, 100.0]))
    c["fmt"] = draw(st.sampled_from(gens.FORMATS + ["F", "csr", "dup"] + list(NARROW)))
    c["vs"] = draw(st.lists(gens.vec(c["d"] + 1), min_size=1, max_size=2))
    return c


def with_intercept(case):
    """the loss, and the same as a column of ones without ridge"""
    case = in_type(case)
    if case["fmt"] == "dia" and not np.any(case["A"]):
        case = dict(case, fmt="csr")     # scipy itself fails on products of empty dia matrices
    loss, A, b = build(case)
    loss.intercept = True
    one = dict(case, A=[row + [1.0] for row in case["A"]], d=case["d"] + 1)
    x = np.array(case["x"]) * case["scale"]
    return case, loss, one, refs.Loss(one), x


def check_intercept(case, t):
    case, loss, one, ref, x = with_intercept(case)
    a, c = case["alpha"], x[-1]
    tv, tg = tolerances(one, x, ref)

    class Ref:
        """the last variable is not penalized"""
        def value(self, x):
            return ref.value(x) - a * x[-1] ** 2 / 2

        def grad(self, x):
            return ref.grad(x) - a * x * (np.arange(x.size) == x.size - 1)
    evaluate(loss, x, Ref(), tv, tg + 1e-13 * a * abs(c))
    t.hit(c != 0 and np.any(x[:-1]), case["fmt"])


SUBS = [
    Sub("value_gradient", case(), check, 4000, rule="A and x are not zero"),
    Sub("identity_data", none_case(), check_none, 600, rule="x is not zero"),
    Sub("pointwise", pointwise_case(), check_pointwise, 1500, rule="p is not zero"),
    Sub("intercept", intercept_case(), check_intercept, 800, rule="x is not zero"),
    Sub("large", gens.large(case(), 150, 60), check, 400, rule="A and x are not zero"),
    Sub("huge", huge_case(), check_huge, 64, thorough=1000, rule="every case"),
]
