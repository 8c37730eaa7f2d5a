"""Reference implementations, written from the definitions and independent of
copt: losses, penalty values, proximal operators, solvers."""
import numpy as np
from . import gens


# ------------------------------------------------------------------ losses

def _softplus(t):
    return np.logaddexp(0.0, t)


def _sigmoid(t):
    return 0.5 * (1.0 + np.tanh(0.5 * t))


class Loss:
    """value, gradient and Hessian of a loss case, in long double"""

    def __init__(self, case, dtype=np.longdouble):
        self.A = np.array(case["A"], dtype=float).astype(dtype)
        self.b = np.array(case["b"], dtype=float).astype(dtype)
        self.kind = case["loss"]
        self.alpha = dtype(gens.alpha_of(case))
        self.delta = case.get("delta")
        self.n, self.d = self.A.shape
        self.dtype = dtype

    def pointwise(self, z):
        b = self.b
        if self.kind == "log":
            # -b log(sigma(z)) - (1-b) log(1-sigma(z))
            return b * _softplus(-z) + (1 - b) * _softplus(z)
        if self.kind == "exp":
            return np.exp(np.minimum(z, 300)) - b * z
        r = z - b
        if self.kind == "quartic":
            return 0.25 * r ** 4
        if self.kind == "root":
            return np.sqrt(1 + r * r)
        if self.kind == "square":
            return 0.5 * r * r
        return np.where(np.abs(r) <= self.delta, 0.5 * r * r,
                        self.delta * (np.abs(r) - 0.5 * self.delta))

    def derivative(self, z):
        b = self.b
        if self.kind == "log":
            # sigma(z) - b, without cancellation:
            pos = z >= 0
            e = np.exp(-np.abs(z))
            return np.where(pos, ((1 - b) - b * e) / (1 + e), ((1 - b) * e - b) / (1 + e))
        if self.kind == "exp":
            return np.exp(np.minimum(z, 300)) - b
        r = z - b
        if self.kind == "quartic":
            return r ** 3
        if self.kind == "root":
            return r / np.sqrt(1 + r * r)
        if self.kind == "square":
            return r
        return np.clip(r, -self.delta, self.delta)

    def value(self, x):
        x = np.asarray(x).astype(self.dtype)
        return float(np.mean(self.pointwise(self.A @ x)) + 0.5 * self.alpha * (x @ x))

    def grad(self, x):
        x = np.asarray(x).astype(self.dtype)
        g = self.A.T @ self.derivative(self.A @ x) / self.n + self.alpha * x
        return np.asarray(g, dtype=float)

    def hessian(self, x):
        x = np.asarray(x).astype(self.dtype)
        z = self.A @ x
        if self.kind == "log":
            s = _sigmoid(z)
            w = s * (1 - s)
        elif self.kind == "square":
            w = np.ones_like(z)
        elif self.kind == "exp":
            w = np.exp(np.minimum(z, 300))
        elif self.kind == "quartic":
            w = 3 * (z - self.b) ** 2
        elif self.kind == "root":
            w = (1 + (z - self.b) ** 2) ** -1.5
        else:
            w = (np.abs(z - self.b) < self.delta).astype(self.dtype)
        H = (self.A.T * w) @ self.A / self.n + self.alpha * np.eye(self.d)
        return np.asarray(H, dtype=float)


# --------------------------------------------------------------- penalties

def pen_value(c, x, slack=0.0):
    x = np.asarray(x, dtype=float)
    k = c["kind"]
    if k == "none":
        return 0.0
    if k == "l1":
        return c["lam"] * np.sum(np.abs(x))
    if k == "group":
        return c["lam"] * sum(np.sqrt(sum(float(x[i]) ** 2 for i in g)) for g in c["groups"])
    if k == "fused":
        return c["lam"] * sum(abs(x[i + 1] - x[i]) for i in range(x.size - 1))
    if k == "tracenorm":
        return c["lam"] * np.linalg.svd(x.reshape(c["shape"]), compute_uv=False).sum()
    if k == "tv2d":
        X = x.reshape(c["shape"])
        r, q = X.shape
        v = 0.0
        for i in range(r):
            for j in range(q):
                if i + 1 < r:
                    v += abs(X[i + 1, j] - X[i, j])
                if j + 1 < q:
                    v += abs(X[i, j + 1] - X[i, j])
        return c["lam"] * v
    return 0.0 if infeasibility(c, x) <= slack else np.inf


def infeasibility(c, x):
    """how far outside the constraint set, in the norm that defines it"""
    x = np.asarray(x, dtype=float)
    k, s = c["kind"], c.get("radius")
    if k == "linf":
        return max(0.0, np.max(np.abs(x)) - s)
    if k == "l2":
        return max(0.0, np.sqrt(np.sum(x ** 2)) - s)
    if k == "l1ball":
        return max(0.0, np.sum(np.abs(x)) - s)
    if k == "simplex":
        return max(abs(np.sum(x) - s), 0.0, -np.min(x))
    if k == "traceball":
        return max(0.0, np.linalg.svd(x.reshape(c["shape"]), compute_uv=False).sum() - s)
    return 0.0


def support(c, u):
    """max of <u, v> over the constraint set"""
    u = np.asarray(u, dtype=float)
    k, s = c["kind"], c["radius"]
    if k == "linf":
        return s * np.sum(np.abs(u))
    if k == "l2":
        return s * np.sqrt(np.sum(u ** 2))
    if k == "l1ball":
        return s * np.max(np.abs(u))
    if k == "simplex":
        return s * np.max(u)
    if k == "traceball":
        return s * np.linalg.norm(u.reshape(c["shape"]), 2)
    raise ValueError(k)


def proj_simplex(v, s):
    """bisection on the threshold (no sorting), then an exact last step"""
    v = np.asarray(v, dtype=float)
    lo, hi = np.min(v) - s, np.max(v)
    for _ in range(200):
        mid = 0.5 * (lo + hi)
        if np.sum(np.maximum(v - mid, 0)) > s:
            lo = mid
        else:
            hi = mid
    act = v > 0.5 * (lo + hi)
    if not act.any():
        act = v == np.max(v)
    theta = (np.sum(v[act]) - s) / act.sum()
    return np.maximum(v - theta, 0)


def proj_l1(v, s):
    v = np.asarray(v, dtype=float)
    if np.sum(np.abs(v)) <= s:
        return v.copy()
    return np.sign(v) * proj_simplex(np.abs(v), s)


def tv1d(w, lam):
    """prox of lam * TV: slopes of the taut string in the tube of radius lam
    around the cumulated signal (plain quadratic-time funnel)"""
    w = [float(a) for a in w]
    n = len(w)
    R = [0.0]
    for a in w:
        R.append(R[-1] + a)
    out = [0.0] * n
    a, ya = 0, 0.0
    while a < n:
        lo, hi, klo, khi = -np.inf, np.inf, None, None
        k, end = a + 1, None
        while k <= n:
            r = lam if k < n else 0.0
            sl, su = (R[k] - r - ya) / (k - a), (R[k] + r - ya) / (k - a)
            if sl > hi:
                end, slope, y = khi, hi, R[khi] + lam
                break
            if su < lo:
                end, slope, y = klo, lo, R[klo] - lam
                break
            if sl >= lo:
                lo, klo = sl, k
            if su <= hi:
                hi, khi = su, k
            k += 1
        if end is None:
            end, slope, y = n, (R[n] - ya) / (n - a), R[n]
        for q in range(a, end):
            out[q] = slope
        a, ya = end, y
    return np.array(out)


def prox(c, v, t):
    """argmin_x pen(x) + ||x - v||^2 / (2 t)"""
    v = np.asarray(v, dtype=float)
    k = c["kind"]
    if k == "none":
        return v.copy()
    if k == "l1":
        return np.sign(v) * np.maximum(np.abs(v) - t * c["lam"], 0)
    if k == "group":
        out = v.copy()
        for g in c["groups"]:
            nrm = np.linalg.norm(v[g])
            out[g] = 0 if nrm == 0 else v[g] * max(0.0, 1 - t * c["lam"] / nrm)
        return out
    if k == "fused":
        return tv1d(v, t * c["lam"])
    if k == "tracenorm":
        U, s, W = np.linalg.svd(v.reshape(c["shape"]), full_matrices=False)
        return ((U * np.maximum(s - t * c["lam"], 0)) @ W).ravel()
    s0 = c["radius"]
    if k == "linf":
        return np.minimum(np.maximum(v, -s0), s0)
    if k == "l2":
        nrm = np.linalg.norm(v)
        return v.copy() if nrm <= s0 else v * (s0 / nrm)
    if k == "l1ball":
        return proj_l1(v, s0)
    if k == "simplex":
        return proj_simplex(v, s0)
    if k == "traceball":
        U, s, W = np.linalg.svd(v.reshape(c["shape"]), full_matrices=False)
        return ((U * proj_l1(s, s0)) @ W).ravel()
    raise ValueError(k)


# ----------------------------------------------------------------- solvers

def gradient_mapping(loss, pen, x, t):
    """(x - prox(x - t grad)) / t; zero exactly at the minimizers"""
    return (x - prox(pen, x - t * loss.grad(x), t)) / t


def objective(loss, pens, x, slack=0.0):
    return loss.value(x) + sum(pen_value(p, x, slack) for p in pens)


def solve(case, pen, iters=100000, tol=1e-12):
    """reference minimizer of loss + one penalty by plain proximal gradient
    with restarted momentum; converges linearly on our well conditioned cases"""
    loss = Loss(case, np.float64)
    L = gens.lipschitz_of(case)
    x = np.zeros(loss.d)
    x = prox(pen, x, 1.0 / L)
    y, tk = x.copy(), 1.0
    for _ in range(iters):
        xn = prox(pen, y - loss.grad(y) / L, 1.0 / L)
        if np.dot(y - xn, xn - x) > 0:
            tk = 1.0
            y = xn.copy()
        else:
            tn = (1 + np.sqrt(1 + 4 * tk * tk)) / 2
            y = xn + (tk - 1) / tn * (xn - x)
            tk = tn
        done = np.linalg.norm(xn - x) * L <= tol * max(1.0, np.linalg.norm(xn))
        x = xn
        if done and np.linalg.norm(gradient_mapping(loss, pen, x, 1.0 / L)) <= 10 * tol * max(1.0, L):
            break
    return x


def dual_box(c, d):
    """(D, kind) with pen(x) = max_{u in C} <u, D x>, for the penalties whose
    dual set is a product of boxes or balls; used to certify optimality of sums"""
    if c["kind"] == "l1":
        return np.eye(d), c["lam"]
    if c["kind"] == "fused":
        return np.diff(np.eye(d), axis=0), c["lam"]
    return None


def solve_sum(case, pens, iters=20000, tol=1e-11):
    """reference minimizer of loss + pen_1 + ... + pen_k: consensus ADMM-free
    Dykstra-like proximal gradient: the joint prox is computed by the parallel
    Dykstra-like splitting with our own prox operators"""
    loss = Loss(case, np.float64)
    L = gens.lipschitz_of(case)
    mu = gens.alpha_of(case)
    k = len(pens)
    d = loss.d
    x = np.zeros(d)
    # dual ascent (ADMM on x = z_i), rho geometric mean of curvatures
    rho = np.sqrt(L * mu)
    z = [x.copy() for _ in pens]
    u = [np.zeros(d) for _ in pens]
    best, bestv = None, np.inf
    # x-update solved by Newton on the smooth strongly convex function
    for it in range(iters):
        c0 = sum(zi - ui for zi, ui in zip(z, u)) / max(k, 1)
        x = _newton(loss, x, c0, rho * k)
        r = 0.0
        for i, p in enumerate(pens):
            zn = prox(p, x + u[i], 1.0 / rho)
            r = max(r, np.max(np.abs(zn - x)), np.max(np.abs(zn - z[i])))
            z[i] = zn
            u[i] = u[i] + x - zn
        if r <= tol:
            break
    return x, z, r


def _newton(loss, x, c, rho):
    """argmin loss(x) + rho/2 ||x - c||^2"""
    d = x.size
    for _ in range(100):
        g = loss.grad(x) + rho * (x - c)
        if np.max(np.abs(g)) <= 1e-13 * (1 + rho):
            break
        H = loss.hessian(x) + rho * np.eye(d)
        step = np.linalg.solve(H, g)
        t = 1.0
        f0 = loss.value(x) + 0.5 * rho * np.sum((x - c) ** 2)
        while t > 1e-8:
            xn = x - t * step
            if loss.value(xn) + 0.5 * rho * np.sum((xn - c) ** 2) <= f0 - 1e-4 * t * (g @ step) + 1e-15 * (1 + abs(f0)):
                break
            t *= 0.5
        x = x - t * step
        if np.max(np.abs(t * step)) <= 1e-15 * (1 + np.max(np.abs(x))):
            break
    return x


def linear_program(c, g, M, h):
    """the least value of <c, x> + g(x) + h(M x) for g the indicator of an l1
    ball or a simplex and h a multiple of the l1 norm or such an indicator"""
    from scipy.optimize import linprog
    c, M = np.asarray(c, dtype=float), np.asarray(M, dtype=float)
    m, d = M.shape
    lam = h["lam"] if h["kind"] == "l1" else 0.0
    cost = np.concatenate([c, -c, np.full(m, lam)])          # x = p - q, |M x| <= t
    A = [np.hstack([M, -M, -np.eye(m)]), np.hstack([-M, M, -np.eye(m)])]
    b = [np.zeros(2 * m)]
    row = np.concatenate([np.ones(2 * d), np.zeros(m)])
    eq, bounds = (None, None), [(0, None)] * (2 * d + m)
    if g["kind"] == "simplex":
        eq, bounds = (row[None], [g["radius"]]), [(0, None)] * d + [(0, 0)] * d + [(0, None)] * m
    else:
        A.append(row[None])
        b.append([g["radius"]])
    if h["kind"] == "l1ball":
        A.append(np.concatenate([np.zeros(2 * d), np.ones(m)])[None])
        b.append([h["radius"]])
    sol = linprog(cost, np.vstack(A), np.concatenate(b), *eq, bounds=bounds)
    return sol.fun if sol.status == 0 else None
