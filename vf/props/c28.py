"""The PyTorch adaptor hands solvers the value and gradient of the user's function."""
import numpy as np
from hypothesis import strategies as st

from .. import faketorch, gens
from ..core import Reject, Sub, arr, close, ensure, num

RULE = ("functions of arrays with one to four axes written in PyTorch operations (a numpy stand-in with its semantics), "
        "evaluated at sequences of points in single and double precision.")
TERMS = ["quad", "sin", "exp", "slice", "matmul", "transpose", "constant"]


@st.composite
def case(draw):
    shape = draw(st.lists(st.integers(1, 4), min_size=1, max_size=4))
    d = int(np.prod(shape))
    return {"shape": shape, "seed": draw(st.integers(0, 10 ** 6)),
            "terms": draw(st.lists(st.sampled_from(TERMS), min_size=1, max_size=3)),
            "dtype": draw(st.sampled_from(["none", "float32", "float64"])), "device": draw(st.sampled_from(["cpu", "cpu", "cuda:0"])),
            "points": draw(st.lists(gens.vec(d), min_size=1, max_size=3)),
            "x": draw(st.sampled_from(["float64", "float32", "int64", "strided", "read-only"])),
            "calls": draw(st.lists(st.tuples(st.integers(0, 2), st.booleans()), min_size=1, max_size=6))}


def data(case):
    rng = np.random.RandomState(case["seed"])
    shape = tuple(case["shape"])
    return np.round(rng.randn(*shape), 1), np.round(rng.randn(*shape), 1), np.round(rng.randn(shape[-1], 3), 1)


def reference(case, x):
    """value and gradient in numpy"""
    W, C, M = data(case)
    X = np.asarray(x, dtype=float).reshape(case["shape"])
    v, g = 0.0, np.zeros(X.shape)
    for k in case["terms"]:
        if k == "quad":
            v += (W ** 2 * (X - C) ** 2).sum() / 2
            g += W ** 2 * (X - C)
        elif k == "sin":
            v += (C * np.sin(X)).sum()
            g += C * np.cos(X)
        elif k == "exp":
            v += (W * np.exp(0.1 * X)).mean()
            g += W * 0.1 * np.exp(0.1 * X) / X.size
        elif k == "slice":
            v += 3 * X[0].sum()
            g[0] += 3
        elif k == "matmul":
            Y = X.reshape(-1, X.shape[-1])
            v += ((Y @ M) ** 2).sum()
            g += (2 * (Y @ M) @ M.T).reshape(X.shape)
        elif k == "transpose":
            Y = X.reshape(-1, X.shape[-1])
            B = np.arange(Y.size).reshape(Y.T.shape) * 0.1
            v += (Y.T * B).sum()
            g += B.T.reshape(X.shape)
        else:
            v += 2.5
    return v, g.ravel()


def torch_function(case, torch, seen):
    W, C, M = data(case)

    def loss(T):
        seen.append((tuple(T.shape), T.dtype, T.device, T.requires_grad))

        def const(a):
            return torch.tensor(a, dtype=T.dtype).to(T.device)
        # something of the input is needed for a gradient
        v = (T * 0.0).sum()
        for k in case["terms"]:
            if k == "quad":
                v = v + (const(W ** 2) * (T - const(C)) ** 2).sum() / 2
            elif k == "sin":
                v = v + (const(C) * torch.sin(T)).sum()
            elif k == "exp":
                v = v + (const(W) * torch.exp(0.1 * T)).mean()
            elif k == "slice":
                v = v + 3 * T[0].sum()
            elif k == "matmul":
                v = v + ((T.reshape(-1, T.shape[-1]) @ const(M)) ** 2).sum()
            elif k == "transpose":
                Y = T.reshape(-1, T.shape[-1]).t()
                B = np.arange(Y.numel()).reshape(Y.shape) * 0.1
                v = v + (Y * const(B)).sum()
            else:
                v = v + 2.5
        return v
    return loss


def represent(p, kind):
    x = np.array(p, dtype=float)
    if kind in ("float32", "int64"):
        x = x.astype(kind)
    elif kind == "strided":
        y = np.full(3 * x.size, 9.0)
        y[::3] = x
        x = y[::3]
    elif kind == "read-only":
        x.flags.writeable = False
    return x


def check(case, t):
    with faketorch.installed() as (torch, adaptor):
        try:
            run(case, t, torch, adaptor)
        except faketorch.Unsupported as e:
            raise Reject("stand-in: %s" % e)


def run(case, t, torch, adaptor):
    kind, seen = case["x"], []
    wanted = None if case["dtype"] == "none" else getattr(torch, case["dtype"])
    if kind == "int64" and wanted is None:
        kind = "float64"
    single = case["dtype"] == "float32" or kind == "float32"
    f_grad = adaptor.make_func_and_grad(torch_function(case, torch, seen), tuple(case["shape"]), torch.device(case["device"]),
                                        **({} if wanted is None else {"dtype": wanted}))
    pts = [represent(p, kind) for p in case["points"]]
    keep = [p.copy() for p in pts]
    want = [reference(case, p) for p in keep]
    kept = []
    for k, (i, both) in enumerate(case["calls"]):
        i %= len(pts)
        v, g = want[i]
        out = f_grad(pts[i]) if both else f_grad(pts[i], return_gradient=False)
        ensure(all(np.array_equal(p, q) for p, q in zip(pts, keep)), "the point was changed")
        ensure(seen, "the function was not called")
        shape, dt, dev, _ = seen[-1]
        ensure(shape == tuple(case["shape"]), "the function got a tensor of shape %s", shape)
        ensure(dt == (wanted or (torch.float32 if kind == "float32" else torch.float64)), "the function got a tensor of type %s", dt)
        ensure(dev == torch.device(case["device"]), "the function got a tensor on %s", dev.type)
        s = 1 + abs(v) + np.abs(g).max() + 100 * np.abs(keep[i]).max() ** 2 * len(g)
        tol = (3e-6 if single else 1e-13) * s
        if both:
            ensure(isinstance(out, tuple) and len(out) == 2, "the adaptor returned %r", out)
            ensure(isinstance(out[1], np.ndarray), "gradient of type %s", type(out[1]))
            close(arr(out[1], g.shape, "gradient"), g, tol, "gradient")
            # what was returned belongs to the caller
            if k % 2:
                kept.append((out[1], out[1].copy()))
            elif out[1].flags.writeable:
                out[1][...] = 77.0
            out = out[0]
        ensure(isinstance(out, (float, np.floating)), "value of type %s", type(out))
        ensure(abs(num(out) - v) <= tol, "value is %r, expected %r", out, v)
    ensure(all(np.array_equal(p, q) for p, q in kept), "a gradient returned earlier was changed by a later call")
    t.hit(any(b for _, b in case["calls"]) and len(case["shape"]) > 1, "%d axes" % len(case["shape"]))
    t.label(case["dtype"], kind, case["device"], *case["terms"])


# ---------------------------------------------------------------- with solvers

@st.composite
def solver_case(draw):
    shape = draw(st.lists(st.integers(1, 3), min_size=1, max_size=3))
    d = int(np.prod(shape))
    return {"shape": shape, "seed": draw(st.integers(0, 10 ** 6)), "terms": ["quad", "ridge"],
            "solver": draw(st.sampled_from(["pgd", "apgd", "tos", "pdhg", "fw"])), "x0": draw(gens.vec(d)),
            "lam": draw(st.sampled_from([0.0, 0.05, 0.3]))}


def check_solver(case, t):
    with faketorch.installed() as (torch, adaptor):
        try:
            run_solver(case, t, torch, adaptor)
        except faketorch.Unsupported as e:
            raise Reject("stand-in: %s" % e)


def run_solver(case, t, torch, adaptor):
    import copt
    W, C, _ = data(case)
    H, s = W ** 2 + 0.5, case["solver"]

    def loss(T):
        return (torch.tensor(H) * (T - torch.tensor(C)) ** 2).sum() / 2
    f = adaptor.make_func_and_grad(loss, tuple(case["shape"]), torch.device("cpu"))
    x0, h, c = np.array(case["x0"]), H.ravel(), C.ravel()
    l1 = copt.penalty.L1Norm(case["lam"]) if case["lam"] else None
    prox = None if l1 is None else l1.prox
    # each coordinate on its own
    want = np.sign(c) * np.maximum(np.abs(c) - case["lam"] / h, 0)
    if s in ("pgd", "apgd"):
        res = copt.minimize_proximal_gradient(f, x0, prox, jac=True, accelerated=s == "apgd", tol=1e-7, max_iter=2000)
    elif s == "tos":
        res = copt.minimize_three_split(f, x0, prox, None, tol=1e-8, max_iter=5000)
    elif s == "pdhg":
        res = copt.minimize_primal_dual(f, x0, prox, None, tol=1e-8, max_iter=5000)
    else:
        r = 0.5 * np.abs(c).sum() + 1.0
        ball = copt.constraint.L1Ball(r)
        res = copt.minimize_frank_wolfe(f, 0 * x0, ball.lmo, jac=True, tol=0, max_iter=1000, step="DR", lipschitz=h.max())
        want = weighted_ball(h, c, r)
    x = arr(res.x, x0.shape, "solution")
    if s == "fw":
        gap = (h * ((x - c) ** 2 - (want - c) ** 2)).sum() / 2
        ensure(gap <= 2 * h.max() * (2 * r) ** 2 / (res.nit + 2), "fw with the adaptor is %g above the minimum after %d iterations", gap,
               res.nit)
    else:
        ensure(bool(res.success), "%s with the adaptor did not converge in %d iterations", s, res.nit)
        close(x, want, 1e-5 * (1 + np.abs(c).max()), "%s with the adaptor", s)
    t.hit(np.any(x0 != want), s)


def weighted_ball(h, c, r):
    """argmin of sum h (x - c)^2 / 2 over the l1 ball: bisection for the multiplier"""
    def at(m):
        return np.sign(c) * np.maximum(np.abs(c) - m / h, 0)
    if np.abs(c).sum() <= r:
        return c
    lo, hi = 0.0, (h * np.abs(c)).max()
    for _ in range(100):
        mid = (lo + hi) / 2
        lo, hi = (mid, hi) if np.abs(at(mid)).sum() > r else (lo, mid)
    return at(hi)


SUBS = [
    Sub("calls", case(), check, 1500, rule="a gradient of a function of more than one axis"),
    Sub("solvers", solver_case(), check_solver, 300, rule="the start is not the minimizer"),
]
