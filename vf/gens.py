"""Case generators.  A case is a JSON-able dict; every random choice is
Hypothesis's, so cases shrink and replay."""
import numpy as np
from hypothesis import strategies as st
from scipy import sparse

FORMATS = ["dense", "csr", "csc", "coo", "lil", "dok", "bsr", "dia"]


@st.composite
def coord(draw, kind):
    """one real number; kinds differ in ties, zeros, scale and sign"""
    if kind == "tied":
        return draw(st.integers(-3, 3)) / 1.0
    if kind == "dyadic":
        return draw(st.integers(-64, 64)) / 16.0
    if kind == "decimal":
        return draw(st.integers(-400, 400)) / 100.0
    if kind == "wide":
        m = draw(st.integers(-999, 999)) / 100.0
        return m * 10.0 ** draw(st.integers(-6, 6))
    if kind == "big":
        return draw(st.integers(-999, 999)) * 1.0
    if kind == "tiny":
        return draw(st.integers(-999, 999)) * 1e-6
    if kind == "neg":
        return -draw(st.integers(1, 400)) / 100.0
    if kind == "pos":
        return draw(st.integers(1, 400)) / 100.0
    raise ValueError(kind)


KINDS = ["decimal", "dyadic", "tied", "wide", "big", "tiny", "neg", "pos"]
MILD = ["decimal", "dyadic", "tied", "neg", "pos"]


def vec(n, kinds=MILD):
    """list of n reals"""
    return st.sampled_from(list(kinds)).flatmap(
        lambda k: st.lists(coord(k), min_size=n, max_size=n))


def sparse_vec(n, kinds=MILD):
    """list of n reals with exact zeros"""
    return st.tuples(vec(n, kinds), st.lists(st.booleans(), min_size=n, max_size=n)).map(
        lambda a: [v if m else 0.0 for v, m in zip(*a)])


@st.composite
def matrix(draw, n, d, kinds=("decimal", "dyadic", "tied"), zeros=True,
           zero_cols=False):
    """n rows of d reals; with zeros, some entries vanish (but, unless
    zero_cols, no column vanishes entirely)"""
    kind = draw(st.sampled_from(list(kinds)))
    M = draw(st.lists(st.lists(coord(kind), min_size=d, max_size=d),
                      min_size=n, max_size=n))
    if zeros:
        style = draw(st.sampled_from(["full", "sparse", "sparse"]))
        if style == "sparse":
            mask = draw(st.lists(st.lists(st.integers(0, 2), min_size=d, max_size=d),
                                 min_size=n, max_size=n))
            M = [[v if m == 0 else 0.0 for v, m in zip(r, q)] for r, q in zip(M, mask)]
    if not zero_cols:
        for j in range(d):
            if all(M[i][j] == 0 for i in range(n)):
                M[draw(st.integers(0, n - 1))][j] = 1.0
    return M


def to_format(M, fmt, dtype=float, index64=False):
    A = np.array(M, dtype=dtype)
    if fmt == "dense":
        return A
    if fmt == "F":
        return np.asfortranarray(A)
    if fmt == "dup":
        # entry a stored as 3a and -2a, columns in decreasing order
        C = sparse.csr_matrix(A[:, ::-1])
        return sparse.csr_matrix((np.repeat(C.data, 2) * np.tile([3, -2], C.nnz),
                                  np.repeat(A.shape[1] - 1 - C.indices, 2), 2 * C.indptr), shape=A.shape)
    B = sparse.csr_matrix(A).asformat(fmt)
    return B


@st.composite
def groups(draw, d, min_groups=1, full=False):
    """increasing contiguous groups, possibly leaving features out"""
    out, pos = [], 0
    while pos < d:
        size = draw(st.integers(1, min(4, d - pos)))
        skip = (not full) and draw(st.integers(0, 3)) == 0
        if not skip:
            out.append(list(range(pos, pos + size)))
        pos += size
    if not out:
        out = [list(range(0, d))]
    return out


positive = st.one_of(
    st.integers(1, 400).map(lambda k: k / 100.0),
    st.integers(1, 32).map(lambda k: k / 16.0),
    st.tuples(st.integers(1, 99), st.integers(-4, 2)).map(lambda a: a[0] * 10.0 ** a[1]))
mild_positive = st.integers(5, 300).map(lambda k: k / 100.0)


# ---------------------------------------------------------------- problems

_size = []


@st.composite
def large(draw, strategy, n=60, d=30):
    """cases of another strategy, with more samples and features"""
    _size.append((n, d))
    try:
        return draw(strategy)
    finally:
        _size.pop()


def random_data(draw, n, d, zero_cols):
    """entries beyond what can be drawn one by one come from a seeded generator"""
    rng = np.random.RandomState(draw(st.integers(0, 2 ** 20)))
    A = np.round(rng.randn(n, d) * 10.0 ** draw(st.sampled_from([0, 0, -1, 1])), 2)
    style = draw(st.sampled_from(["full", "sparse", "sparse", "low rank", "scaled"]))
    if style == "sparse":
        A *= rng.rand(n, d) < 0.15
    if style == "low rank":
        A = np.round(A[:, :2] @ rng.randn(2, d), 2)
    if style == "scaled":
        A = np.round(A * 2.0 ** rng.randint(-2, 3, d), 4)
    if not zero_cols:
        for j in np.flatnonzero(~A.any(axis=0)):
            A[rng.randint(n), j] = 1.0
    x = rng.randn(d) * (rng.rand(d) < 0.3)
    y = A @ x
    return A, y + 0.1 * (np.abs(y).max() + 1) * rng.randn(n), rng


def large_loss_case(draw, losses, ratio, zero_cols):
    n = draw(st.integers(9, _size[-1][0]))
    d = draw(st.integers(7, _size[-1][1]))
    kind = draw(st.sampled_from(list(losses)))
    A, y, rng = random_data(draw, n, d, zero_cols)
    case = {"loss": kind, "n": n, "d": d, "A": A.tolist()}
    if kind == "log":
        case["b"] = ((y > 0) * 1.0 if draw(st.booleans()) else np.round(rng.rand(n), 2)).tolist()
    else:
        case["b"] = np.round(y, 2).tolist()
    if kind == "huber":
        case["delta"] = draw(st.sampled_from([0.25, 0.5, 1.0, 2.0]))
    if ratio:
        case["ratio"] = draw(st.sampled_from([0.02, 0.05, 0.1, 0.3, 1.0]))
    return case


@st.composite
def loss_case(draw, losses=("log", "square", "huber"), n_max=8, d_min=1, d_max=6,
              ratio=True, zero_cols=False, zeros=True, n_min=1):
    """a regularized loss; `ratio` is alpha over the curvature of the data
    term, so that the condition number is at most 1 + 1/ratio"""
    if _size:
        return large_loss_case(draw, losses, ratio, zero_cols)
    n = draw(st.integers(n_min, n_max))
    d = draw(st.integers(d_min, d_max))
    kind = draw(st.sampled_from(list(losses)))
    case = {"loss": kind, "n": n, "d": d,
            "A": draw(matrix(n, d, zero_cols=zero_cols, zeros=zeros))}
    if kind == "log":
        if draw(st.booleans()):
            case["b"] = draw(st.lists(st.integers(0, 1).map(float), min_size=n, max_size=n))
        else:
            case["b"] = draw(st.lists(st.integers(0, 8).map(lambda k: k / 8.0),
                                      min_size=n, max_size=n))
    else:
        case["b"] = draw(vec(n))
    if kind == "huber":
        case["delta"] = draw(st.sampled_from([0.25, 0.5, 1.0, 2.0]))
    if ratio:
        case["ratio"] = draw(st.sampled_from([0.02, 0.05, 0.1, 0.3, 1.0]))
    return case


OWN = ["quartic", "exp", "root"]


@st.composite
def own_case(draw, strategy, zmax=None):
    """a case of another strategy with a smooth function that copt does not
    provide: its curvature varies, and is unbounded but for `root`.  The
    constants of the case are valid where |A x| <= zmax(case), by default 1."""
    c = draw(strategy)
    c["loss"] = draw(st.sampled_from(OWN))
    A = np.array(c["A"])
    A *= draw(st.sampled_from([0.5, 1.0, 2.0])) / np.linalg.norm(A, axis=1).max()
    c["A"] = np.round(A, 6).tolist()
    b = np.array(c["b"])
    c["b"] = np.abs(b).round().tolist() if c["loss"] == "exp" else (b / (1 + np.abs(b).max())).tolist()
    if "x0" in c and isinstance(c["x0"], list) and c["x0"] and not isinstance(c["x0"][0], list):
        x0 = np.array(c["x0"])
        c["x0"] = (x0 * min(1, 3 / max(np.linalg.norm(x0), 1e-9))).tolist()
    z = 1.0 if zmax is None else zmax(c)
    c["weight"] = {"quartic": 3 * (z + 1) ** 2, "exp": float(np.exp(z)), "root": 1.0}[c["loss"]]
    return c


def curvature(case, A=None):
    """smoothness constant of the data term (harness' own)"""
    A = np.array(case["A"], dtype=float) if A is None else A
    s = np.linalg.norm(A, 2)
    c = s * s / A.shape[0]
    return 0.25 * c if case["loss"] == "log" else case.get("weight", 1.0) * c


def alpha_of(case):
    if "alpha" in case:
        return case["alpha"]
    return case["ratio"] * max(curvature(case), 0.05)


def lipschitz_of(case):
    return curvature(case) + alpha_of(case)


def build_loss(case, fmt="dense", dtype=float):
    """the copt loss of a case"""
    import copt
    assert case["loss"] not in OWN
    A = to_format(case["A"], fmt, dtype)
    b = np.array(case["b"], dtype=float)
    a = alpha_of(case)
    if case["loss"] == "log":
        return copt.loss.LogLoss(A, b, a)
    if case["loss"] == "square":
        return copt.loss.SquareLoss(A, b, a)
    return copt.loss.HuberLoss(A, b, a, case["delta"])


# --------------------------------------------------------------- penalties

@st.composite
def penalty_case(draw, d, kinds):
    """a penalty or constraint with an exact proximal operator"""
    kind = draw(st.sampled_from(list(kinds)))
    c = {"kind": kind}
    if kind in ("l1", "fused", "group", "tracenorm", "tv2d"):
        c["lam"] = draw(st.sampled_from([0.01, 0.05, 0.1, 0.25, 0.5, 1.0, 3.0]))
    elif kind != "none":
        c["radius"] = draw(st.sampled_from([0.1, 0.25, 0.5, 1.0, 2.0, 5.0]))
    if kind == "group":
        c["groups"] = draw(groups(d))
    if kind in ("tracenorm", "traceball", "tv2d"):
        divs = [k for k in range(1, d + 1) if d % k == 0]
        r = draw(st.sampled_from(divs))
        c["shape"] = [r, d // r]
    return c


def build_penalty(c):
    """the copt object of a penalty case (None for no penalty)"""
    import copt
    k = c["kind"]
    if k == "none":
        return None
    if k == "l1":
        return copt.penalty.L1Norm(c["lam"])
    if k == "group":
        return copt.penalty.GroupL1(c["lam"], c["groups"])
    if k == "fused":
        return copt.penalty.FusedLasso(c["lam"])
    if k == "tracenorm":
        return copt.penalty.TraceNorm(c["lam"], tuple(c["shape"]))
    if k == "tv2d":
        return copt.penalty.TotalVariation2D(c["lam"], tuple(c["shape"]),
                                             max_iter=c.get("max_iter", 100),
                                             tol=c.get("tol", 1e-6))
    if k == "linf":
        return copt.constraint.LinfBall(c["radius"])
    if k == "l2":
        return copt.constraint.L2Ball(c["radius"])
    if k == "l1ball":
        return copt.constraint.L1Ball(c["radius"])
    if k == "simplex":
        return copt.constraint.SimplexConstraint(c["radius"])
    if k == "traceball":
        return copt.constraint.TraceBall(c["radius"], tuple(c["shape"]))
    raise ValueError(k)


def prox_of(c):
    p = build_penalty(c)
    return None if p is None else p.prox


PENALTIES = ["none", "l1", "group", "fused", "tracenorm"]
CONSTRAINTS = ["linf", "l2", "l1ball", "simplex", "traceball"]
EXACT = PENALTIES + CONSTRAINTS
