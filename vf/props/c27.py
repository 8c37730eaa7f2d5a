"""Whatever the user's functions do, runs end, do not report success for
nonsense, and let exceptions through without leaving anything behind."""
import numpy as np
from hypothesis import strategies as st

from .. import fw, gens, zoo
from ..core import Budget, Sub, Violation, ensure, unchanged
from . import c15

RULE = ("each solver on a random problem whose objective, derivative, proximal operators, oracle or callback fail at a random "
        "call: not-a-number, infinite, huge or random values, once or from there on, or any exception.")
HOWS = ["nan", "nan value", "nan gradient", "inf", "-inf", "huge", "noise", "concave", "zero"]
ERRORS = [ValueError, TypeError, KeyError, IndexError, AttributeError, ZeroDivisionError, FloatingPointError, AssertionError,
          StopIteration, RuntimeError, NotImplementedError, KeyboardInterrupt, SystemExit, MemoryError]


@st.composite
def case(draw):
    c = draw(zoo.case())
    if c.get("set", {}).get("kind") == "hull":
        c["set"] = {"kind": "l1ball", "radius": 1.0}
        c["x0"] = fw.vertex(c["set"], c["d"], c.get("vertex", 0))[0].tolist()
    c["at"] = draw(st.integers(0, 14))
    c["how"] = draw(st.sampled_from(HOWS))
    c["once"] = draw(st.booleans())
    c["max_iter"] = draw(st.integers(1, 20))
    c["tol"] = draw(st.sampled_from([0.0, 1e-9, 1e-3, 0.05]))
    return c


class Faulty:
    """evaluations behind a counter; some of them are replaced"""

    def __init__(self, case, limit):
        self.case, self.count, self.hits = case, 0, 0
        self.budget = Budget(limit, case["solver"])
        self.loss = gens.build_loss(case)
        self.rng = np.random.RandomState(case["rng"])
        self.base = c15.derivative(case)

    def now(self):
        self.budget.tick()
        self.count += 1
        k = self.count - 1
        hit = k == self.case["at"] if self.case["once"] else k >= self.case["at"]
        self.hits += hit
        return hit

    def change(self, x, v, g):
        how = self.case["how"]
        if how == "nan":
            return np.nan, g + np.nan
        if how == "nan value":
            return np.nan, g
        if how == "nan gradient":
            return v, g + np.nan
        if how in ("inf", "-inf"):
            return float(how), g
        if how == "huge":
            return 1e300, 1e300 * np.sign(g + 0.5)
        if how == "noise":
            return self.rng.randn(), self.rng.randn(*np.shape(g))
        if how == "concave":
            return -0.5 * float(np.dot(x, x)), -x
        return 0.0, 0 * g

    def f_grad(self, x, return_gradient=True):
        v, g = self.loss.f_grad(x)
        if self.now():
            v, g = self.change(np.array(x, dtype=float), v, g)
        return (v, g) if return_gradient else v

    def deriv(self, p, y):
        p = np.asarray(p, dtype=float)
        g = self.base(p, y)
        if self.now():
            v, g = self.change(p, 0.0, np.asarray(g, dtype=float))
            if self.case["how"] in ("inf", "-inf", "nan value"):
                g = g + v
        return g


def check(case, t):
    s, d = case["solver"], case["d"]
    # 0.9^7000 takes the largest number to the smallest
    f = Faulty(case, (case["max_iter"] + 2) * (8000 if s in zoo.BATCH else 8 * case["n"]) + 100)
    x0 = np.array(case["x0"])
    seen = []
    with np.errstate(all="ignore"):
        try:
            res = zoo.solve(case, x0=x0, f=f, deriv=f.deriv, tol=case["tol"], max_iter=case["max_iter"],
                            callback=lambda dl: seen.append(1))
        except Violation:
            raise
        except Exception as e:
            # refusing to go on is fine
            ensure(f.hits > 0, "%s raised %r without a fault", s, e)
            t.label("refused: %s" % type(e).__name__)
            t.hit(False)
            return
    ensure(np.array_equal(x0, case["x0"]), "%s changed x0", s)
    x = np.asarray(res.x, dtype=float)
    ensure(x.shape == (d,), "%s: solution of shape %s", s, x.shape)
    ensure(res.nit <= case["max_iter"], "%s: %d iterations, %d allowed", s, res.nit, case["max_iter"])
    steps = case["n"] // case["batch"] if s == "sfw" else 1
    ensure(len(seen) <= (case["max_iter"] + 2) * steps + 1, "%s: %d callbacks in %d iterations", s, len(seen), case["max_iter"])
    if res.success:
        ensure(np.all(np.isfinite(x)), "%s (%s) reports success at %s", s, case["how"], x.tolist())
        ensure(np.isfinite(res.get("certificate", 0.0)), "%s (%s) reports success with certificate %s", s, case["how"],
               res.get("certificate"))
    t.hit(f.hits > 0, s)
    t.label(case["how"], "finite" if np.all(np.isfinite(x)) else "broken down", "success" if res.success else "")


# ------------------------------------------------------------------ exceptions

@st.composite
def raise_case(draw):
    c = draw(zoo.case())
    c["max_iter"] = draw(st.integers(1, 20))
    where = ["objective", "objective", "callback"]
    if c["solver"] in ("pgd", "apgd", "tos", "pdhg"):
        where += ["prox", "prox"]
    if "set" in c:
        where += ["oracle", "oracle"]
    c["where"] = draw(st.sampled_from(where))
    c["at"] = draw(st.one_of(st.integers(0, 3), st.integers(0, 12)))
    c["error"] = draw(st.integers(0, len(ERRORS) - 1))
    return c


class Bomb:
    """raises at a given call"""

    def __init__(self, at, error):
        self.left, self.error = at, error

    def tick(self):
        self.left -= 1
        if self.left == -1:
            raise self.error


class Never:
    def tick(self):
        pass


class Pen:
    def __init__(self, pen, bomb):
        self.pen, self.bomb = pen, bomb

    def prox(self, x, step, *args):
        self.bomb.tick()
        return self.pen.prox(x, step)


def check_raise(case, t):
    s, where = case["solver"], case["where"]
    x0, A, b = np.array(case["x0"]), np.array(case["A"]), np.array(case["b"])
    loss, base = gens.build_loss(case), c15.derivative(case)
    pens = None if "set" in case else [gens.build_penalty(p) for p in zoo.terms(case)]
    oracle = fw.build(case["set"], s == "pfw", case["d"]) if "set" in case else None

    class F:
        def __init__(self, bomb):
            self.bomb = bomb

        def f_grad(self, x, return_gradient=True):
            self.bomb.tick()
            return loss.f_grad(x, return_gradient=return_gradient)

        def deriv(self, p, y):
            self.bomb.tick()
            return base(p, y)

    def run(bomb):
        def at(w):
            return bomb if where == w else Never()
        f, kw = F(at("objective")), {}
        if "set" in case:
            def lmo(*args):
                at("oracle").tick()
                return oracle(*args)
            kw["lmo"] = lmo
        elif s in zoo.BATCH:
            kw["penalties"] = [None if p is None else Pen(p, at("prox")) for p in pens]
        else:
            kw["penalties"] = pens
        return zoo.solve(case, x0=x0, A=A, b=b, f=f, deriv=f.deriv, tol=1e-6, max_iter=case["max_iter"],
                         callback=lambda dl: at("callback").tick(), **kw)

    def result(res):
        return np.array(res.x, dtype=float), res.nit, bool(res.success)
    before = result(run(Never()))
    error = ERRORS[case["error"]]("from the " + where)

    def job():
        bomb = Bomb(case["at"], error)
        try:
            run(bomb)
        except BaseException as e:
            if bomb.left >= 0:
                raise
            return bomb, e
        return bomb, None
    bomb, got = unchanged(job, "%s, left by an exception," % s)
    ensure(got is error or bomb.left >= 0, "%s: %r raised by the %s in call %d ends as %r", s, error, where, case["at"], got)
    for name, v in (("x0", x0), ("A", A), ("b", b)):
        ensure(np.array_equal(v, np.array(case[name])), "%s changed %s before the exception", s, name)
    after = result(run(Never()))
    tied = case.get("set", {}).get("kind") == "traceball"
    ensure(tied or (np.array_equal(before[0], after[0]) and before[1:] == after[1:]), "%s: %s after a run that failed, %s before", s,
           after, before)
    t.hit(got is error, s)
    t.label(where, type(error).__name__ if got is error else "no such call")


SUBS = [
    Sub("faults", case(), check, 2200, rule="the fault happened and the run went on"),
    Sub("exceptions", raise_case(), check_raise, 3000, rule="the exception was raised"),
]
