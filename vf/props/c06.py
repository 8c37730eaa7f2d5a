"""Block proximal operators of the stochastic solvers agree with the full ones."""
import numpy as np
from hypothesis import strategies as st

from .. import gens, refs, units
from ..core import Sub, arr, close, ensure

RULE = ("every subset of blocks, in any order, arbitrary positive block weights and steps; odd "
        "and even lengths from 1; groups with gaps before, between and after.")


@st.composite
def case(draw, d_max=9):
    d = draw(st.integers(1, d_max))
    c = draw(gens.penalty_case(d, ["l1", "group", "fused"]))
    c["lam"] = draw(gens.mild_positive)
    return {"pen": c, "d": d, "x": draw(gens.vec(d)), "t": draw(gens.mild_positive),
            "w": draw(st.lists(st.sampled_from([1.0, 1.0, 1.5, 2.0, 4.0]), min_size=d + 1, max_size=d + 1)),
            "order": draw(st.permutations(list(range(d + 1)))),
            "keep": draw(st.lists(st.booleans(), min_size=d + 1, max_size=d + 1)),
            "pad": draw(st.integers(0, 2))}


def factories(c, d):
    pen = gens.build_penalty(c)
    if c["kind"] == "fused":
        return [pen.prox_1_factory(d), pen.prox_2_factory(d)]
    return [pen.prox_factory(d)]


def blocks_of(B, d):
    """feature lists of the blocks; must partition the features"""
    ensure(B.shape[1] == d, "block matrix has %d columns for %d features", B.shape[1], d)
    out = [list(map(int, B.indices[B.indptr[h]:B.indptr[h + 1]])) for h in range(B.shape[0])]
    flat = [j for b in out for j in b]
    ensure(sorted(flat) == list(range(d)), "blocks %s do not partition the features", out)
    return out


def block_value(c, part, blocks, x):
    """penalty carried by each block, by definition"""
    if c["kind"] == "l1":
        return [c["lam"] * abs(x[b[0]]) if len(b) == 1 else None for b in blocks]
    return None


def block_prox(c, b, v, ss):
    """prox of the part of the penalty that lives on block b"""
    k = c["kind"]
    if k == "l1":
        return np.sign(v) * np.maximum(np.abs(v) - ss * c["lam"], 0)
    if k == "group":
        if b in c["groups"]:
            return refs.prox({"kind": "group", "lam": c["lam"], "groups": [list(range(len(b)))]}, v, ss)
        return v.copy()
    if len(b) == 1:
        return v.copy()
    m, h = 0.5 * (v[0] + v[1]), 0.5 * (v[0] - v[1])
    h = np.sign(h) * max(abs(h) - ss * c["lam"], 0)
    return np.array([m + h, m - h])


def check(case, t):
    c, d = case["pen"], case["d"]
    moved = False
    edges = []
    for part, (prox, B) in enumerate(factories(c, d)):
        blocks = blocks_of(B, d)
        if c["kind"] == "group":
            for g in c["groups"]:
                ensure(g in blocks, "group %s is not a block of %s", g, blocks)
            ensure(all(b in c["groups"] or len(b) == 1 for b in blocks), "blocks %s", blocks)
        elif c["kind"] == "l1":
            ensure(all(len(b) == 1 for b in blocks), "blocks %s", blocks)
        else:
            ensure(all(len(b) == 1 or (len(b) == 2 and b[1] == b[0] + 1) for b in blocks),
                   "blocks %s", blocks)
            edges += [b[0] for b in blocks if len(b) == 2]
        nb = len(blocks)
        w = np.array(case["w"][:nb] + [1.0] * max(0, nb - len(case["w"])))
        chosen = [h for h in case["order"] if h < nb and case["keep"][h]]
        # row `pad` of a support matrix lists the chosen blocks
        indices = np.array([0] * case["pad"] + chosen + [0], dtype=np.int64)
        indptr = np.array(list(range(case["pad"] + 1)) + [case["pad"] + len(chosen),
                                                          len(indices)], dtype=np.int64)
        x = np.array(case["x"], dtype=float)
        want = x.copy()
        for h in chosen:
            want[blocks[h]] = block_prox(c, blocks[h], x[blocks[h]], case["t"] * w[h])
        prox(x, case["pad"], indices, indptr, w, case["t"])
        s = np.max(np.abs(case["x"])) + c["lam"] * case["t"] * 4
        arr(x, (d,), "block prox")
        close(x, want, 1e-12 * s, "block prox of %s over blocks %s", c, [blocks[h] for h in chosen])
        rest = [j for h in range(nb) if h not in chosen for j in blocks[h]]
        ensure(np.array_equal(x[rest], np.array(case["x"])[rest]), "features outside the blocks changed")
        moved |= bool(np.any(want != np.array(case["x"])))
        t.label("all" if len(chosen) == nb else "some" if chosen else "none")
        if c["kind"] != "fused":
            # all the blocks with unit weights: the full operator
            x = np.array(case["x"], dtype=float)
            prox(x, 0, np.arange(nb), np.array([0, nb]), np.ones(nb), case["t"])
            full = gens.build_penalty(c).prox(np.array(case["x"], dtype=float), case["t"])
            close(x, full, 1e-12 * s, "all blocks and the full prox")
    if c["kind"] == "fused":
        ensure(sorted(edges) == list(range(d - 1)), "edges covered: %s of %d", sorted(edges), d - 1)
    t.hit(moved, c["kind"])


@st.composite
def huge_case(draw):
    return {"kind": draw(st.sampled_from(["l1", "group", "fused"])), "d": draw(st.integers(32760, 70000)),
            "lam": draw(st.sampled_from([0.1, 0.5, 1.0])), "t": draw(st.sampled_from([0.25, 1.0])),
            "seed": draw(st.integers(0, 10 ** 6))}


def check_huge(case, t):
    """more features than 16-bit indices can count"""
    d, rng = case["d"], np.random.RandomState(case["seed"])
    c = {"kind": case["kind"], "lam": case["lam"]}
    if c["kind"] == "group":
        cuts = np.concatenate([[0], np.sort(rng.choice(np.arange(1, d), d // 2, replace=False)), [d]])
        c["groups"] = [list(range(a, b)) for a, b in zip(cuts, cuts[1:]) if rng.rand() < 0.9]
    start = rng.randn(d)
    for k, (prox, B) in enumerate(factories(c, d)):
        B = B.tocsr()
        nb = B.shape[0]
        ensure(B.shape[1] == d and np.array_equal(B.indices, np.arange(d)), "blocks of %d features", d)
        w = 1.0 + rng.rand(nb)
        chosen = np.flatnonzero(rng.rand(nb) < 0.5)
        x = start.copy()
        prox(x, 0, chosen, np.array([0, chosen.size]), w, case["t"])
        block = np.repeat(np.arange(nb), np.diff(B.indptr))
        ss = case["t"] * case["lam"] * w
        ss[np.setdiff1d(np.arange(nb), chosen)] = 0
        want = start.copy()
        if c["kind"] == "l1":
            want = np.sign(start) * np.maximum(np.abs(start) - ss[block], 0)
        elif c["kind"] == "group":
            penalized = np.zeros(d, dtype=bool)
            for g in c["groups"]:
                penalized[g] = True
            norms = np.sqrt(np.bincount(block, start ** 2, minlength=nb))
            scale = np.maximum(0, 1 - ss / norms)[block]
            want = np.where(penalized, start * scale, start)
        else:
            i = B.indptr[:-1][np.diff(B.indptr) == 2]
            ensure(np.array_equal(i, np.arange(k, d - 1, 2)), "pairs of half %d", k)
            half = (start[i] - start[i + 1]) / 2
            cut = np.sign(half) * np.minimum(np.abs(half), ss[block[i]])
            want[i] -= cut
            want[i + 1] += cut
        close(arr(x, (d,), "block prox"), want, 1e-12 * (1 + np.abs(start).max()), "block prox of %s over %d of %d blocks",
              c["kind"], chosen.size, nb)
    t.hit(True, c["kind"])


SUBS = [
    Sub("units", units.case(["l1", "group", "fused"]), units.check, 500, rule=units.RULE),
    Sub("blocks", case(), check, 4000, rule="some coordinate moved"),
    Sub("huge", huge_case(), check_huge, 24, thorough=200, rule="every case, more than 2^15 features"),
    Sub("large", case(50), check, 300, rule="as blocks"),
]
