"""Sparse kernels and batch sampling."""
import numpy as np
from hypothesis import strategies as st
from scipy import sparse

from .. import gens
from ..core import Sub, arr, close, ensure

RULE = ("CSR arrays with empty rows, unsorted and duplicate column indices, any index list "
        "(empty, repeated, reversed), every pair of dense/sparse operand formats.")


@st.composite
def csr(draw, top=7):
    n, d = draw(st.integers(1, top)), draw(st.integers(1, top))
    rows = draw(st.lists(st.lists(st.integers(0, d - 1), max_size=6), min_size=n, max_size=n))
    data = draw(gens.vec(sum(map(len, rows)))) if any(rows) else []
    idx = draw(st.lists(st.integers(0, n - 1), max_size=top + 2))
    return {"n": n, "d": d, "rows": rows, "data": data, "idx": idx,
            "x": draw(gens.vec(d)), "y": draw(gens.vec(max(len(idx), 1))),
            "int64": draw(st.booleans())}


def check_kernels(case, t):
    from copt import utils
    n, d = case["n"], case["d"]
    it = np.int64 if case["int64"] else np.int32
    indices = np.array([j for r in case["rows"] for j in r], dtype=it)
    indptr = np.concatenate([[0], np.cumsum([len(r) for r in case["rows"]])]).astype(it)
    data = np.array(case["data"], dtype=float)
    M = np.zeros((n, d))
    k = 0
    for i, r in enumerate(case["rows"]):
        for j in r:
            M[i, j] += data[k]
            k += 1
    idx = np.array(case["idx"], dtype=it)
    x = np.array(case["x"])
    y = np.array(case["y"][:len(idx)], dtype=float)
    saved = [a.copy() for a in (data, indptr, indices, x, y, idx)]
    bound = (np.abs(data).sum() + 1e-300) * 1e-13
    mv = arr(utils.fast_csr_mv(data, indptr, indices, x, idx), (len(idx),), "matrix-vector product")
    close(mv, M[idx] @ x if len(idx) else np.zeros(0), bound * (1 + np.abs(x).max()), "matrix-vector product")
    vm = arr(utils.fast_csr_vm(y, data, indptr, indices, d, idx), (d,), "vector-matrix product")
    want = y @ M[idx] if len(idx) else np.zeros(d)
    close(vm, want, bound * (1 + np.abs(y).sum()), "vector-matrix product")
    for a, b in zip((data, indptr, indices, x, y, idx), saved):
        ensure(np.array_equal(a, b), "a kernel changed its arguments")
    t.hit(np.any(mv) and np.any(vm))
    t.label("repeated" if len(set(case["idx"])) < len(case["idx"]) else "",
            "duplicates" if any(len(set(r)) < len(r) for r in case["rows"]) else "",
            "empty" if not case["idx"] else "")


@st.composite
def add_case(draw):
    shape = draw(st.sampled_from(["matrix", "column", "row", "flat_col", "flat_row"]))
    n, d = draw(st.integers(1, 5)), draw(st.integers(1, 5))
    if shape != "matrix":
        n, d = (max(n, d), 1) if "col" in shape else (1, max(n, d))
    a, b = draw(gens.matrix(n, d, zero_cols=True)), draw(gens.matrix(n, d, zero_cols=True))
    return {"shape": shape, "a": a, "b": b,
            "fa": draw(st.sampled_from(gens.FORMATS + ["dup"])), "fb": draw(st.sampled_from(gens.FORMATS + ["dup"])),
            "swap": draw(st.booleans())}


def check_add(case, t):
    from copt import utils
    A, B = np.array(case["a"]), np.array(case["b"])
    want = A + B
    a, b = gens.to_format(case["a"], case["fa"]), gens.to_format(case["b"], case["fb"])
    if case["shape"].startswith("flat"):
        # one sparse vector, one flat dense vector
        a = gens.to_format(case["a"], case["fa"] if case["fa"] != "dense" else "csr")
        b = B.ravel()
        want = want.ravel()
    if case["swap"]:
        a, b = b, a
    before = [m.toarray() if sparse.issparse(m) else m.copy() for m in (a, b)]
    out = utils.safe_sparse_add(a, b)
    both = sparse.issparse(a) and sparse.issparse(b)
    ensure(sparse.issparse(out) == both, "sparse result: %s, both operands sparse: %s",
           sparse.issparse(out), both)
    close(arr(out.toarray() if sparse.issparse(out) else out, want.shape, "sum"), want, 1e-12 * (
        1 + np.abs(want).max()), "sum of %s and %s", type(a).__name__, type(b).__name__)
    for m, o in zip((a, b), before):
        ensure(np.array_equal(m.toarray() if sparse.issparse(m) else m, o), "an operand changed")
    t.hit(np.any(want), case["shape"])
    t.label("both sparse" if both else "mixed" if sparse.issparse(a) or sparse.issparse(b) else "dense")


@st.composite
def batch_case(draw, top=12):
    n = draw(st.integers(1, top))
    return {"n": n, "bs": draw(st.integers(1, n)), "nb": draw(st.integers(1, max(6, top // 10))),
            "seed": draw(st.integers(0, 10 ** 6))}


def check_batches(case, t):
    from copt import utils
    np.random.seed(case["seed"])
    n, bs, nb = case["n"], case["bs"], case["nb"]
    idx = arr(utils.sample_batches(n, nb, bs), (nb * bs,), "batches")
    ensure(np.all(idx == np.round(idx)) and idx.min() >= 0 and idx.max() < n, "indices out of range: %s", idx)
    for k in range(nb):
        batch = idx[k * bs:(k + 1) * bs]
        ensure(len(set(batch)) == bs, "batch %s repeats samples", batch.tolist())
    t.hit(bs > 1 and n > bs)
    t.label("full" if bs == n else "")


@st.composite
def uniform_case(draw):
    n = draw(st.integers(2, 6))
    return {"n": n, "bs": draw(st.integers(1, n)), "seed": draw(st.integers(0, 10 ** 6))}


def check_uniform(case, t):
    """every sample is drawn with frequency bs/n, in every slot with frequency
    1/n (ten standard deviations: false alarms have probability < 1e-20)"""
    from copt import utils
    np.random.seed(case["seed"])
    n, bs, nb = case["n"], case["bs"], 2000
    B = np.asarray(utils.sample_batches(n, nb, bs)).reshape(nb, bs)
    for s in range(bs):
        count = np.bincount(B[:, s], minlength=n)
        dev = 10 * np.sqrt(nb / n)
        ensure(np.all(np.abs(count - nb / n) <= dev), "slot %d: counts %s are not uniform", s, count.tolist())
    t.hit(True)


@st.composite
def huge_case(draw):
    return {"n": draw(st.sampled_from([300, 5000, 33000, 66000])) + draw(st.integers(0, 999)),
            "d": draw(st.sampled_from([300, 33000, 66000])) + draw(st.integers(0, 999)), "nnz": draw(st.integers(1, 300)),
            "seed": draw(st.integers(0, 10 ** 6))}


def check_huge(case, t):
    """more rows, columns and samples than 16-bit indices can count"""
    from copt import utils
    rng = np.random.RandomState(case["seed"])
    n, d = case["n"], case["d"]
    per = rng.randint(0, 4, n)
    per[rng.randint(n)] = case["nnz"]
    indptr = np.concatenate([[0], np.cumsum(per)])
    A = sparse.csr_matrix((rng.randn(indptr[-1]), rng.randint(0, d, indptr[-1]), indptr), shape=(n, d))
    idx = np.concatenate([rng.randint(0, n, 2000), [n - 1, 0], np.flatnonzero(per == case["nnz"])])
    x, y = rng.randn(d), rng.randn(idx.size)
    kept = A.copy()
    got = arr(utils.fast_csr_mv(A.data, A.indptr, A.indices, x, idx), idx.shape, "fast_csr_mv")
    close(got, A[idx].dot(x), 1e-12 * (1 + case["nnz"]), "fast_csr_mv")
    got = arr(utils.fast_csr_vm(y, A.data, A.indptr, A.indices, d, idx), (d,), "fast_csr_vm")
    close(got, A[idx].T.dot(y), 1e-11 * (1 + np.abs(y).max() * 10), "fast_csr_vm")
    ensure(np.array_equal(kept.data, A.data) and np.array_equal(kept.indices, A.indices), "the data changed")
    np.random.seed(case["seed"])
    for bs in (1, n // 2 + 1, n):
        b = arr(utils.sample_batches(n, 2, bs), (2 * bs,), "batches")
        for part in (b[:bs], b[bs:]):
            ensure(part.min() >= 0 and part.max() < n and np.unique(part).size == bs, "batch of %d out of %d: %d distinct, "
                   "from %r to %r", bs, n, np.unique(part).size, part.min(), part.max())
    t.hit(n > 2 ** 15, "n>2^15" if n > 2 ** 15 else "")
    t.label("d>2^15" if d > 2 ** 15 else "", "n>2^8" if n > 256 else "")


SUBS = [
    Sub("kernels", csr(), check_kernels, 2500, rule="both products are nonzero"),
    Sub("sum", add_case(), check_add, 2000, rule="nonzero sum"),
    Sub("batches", batch_case(), check_batches, 1000, rule="proper batches of several samples"),
    Sub("kernels_large", csr(60), check_kernels, 200, rule="as kernels"),
    Sub("batches_large", batch_case(300), check_batches, 200, rule="as batches"),
    Sub("huge", huge_case(), check_huge, 48, thorough=1000, rule="more than 2^15 samples"),
    Sub("uniform", uniform_case(), check_uniform, 40, rule="every case, 2000 batches each"),
]
