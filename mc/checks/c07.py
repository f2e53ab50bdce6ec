"""C07: optimality of dynamic programming, the greedy merge rule."""
import itertools

import numpy as np

import effector.binning_methods as bm
from mc import gen, ref
from mc.common import same, expect, binning
from mc.engine import Scenario, Skip


def find(xs, eff, lo, hi, spec):
    N = len(xs)
    X = np.stack([np.arange(N) * 0.5, xs], axis=1)
    E = np.stack([np.arange(N) * 1.5, eff], axis=1)
    return bm.find_limits(X, E, 1, np.array([[-1.0, lo], [N, hi]]), binning(spec)).limits


def to_index(edges, lo, hi, K):
    g = np.linspace(lo, hi, K + 1)
    idx = [int(np.argmin(np.abs(g - e))) for e in edges]
    expect(np.all(np.abs(g[idx] - edges) <= 1e-9 * (hi - lo)), "edges %s are not on the grid of %d equal cells", np.asarray(edges).tolist(), K)
    return idx


def admissible(edges, xs, eff, lo, hi, spec):
    """whether these bins are one of the outcomes the definition allows (ties allow several)"""
    kind, kw = spec
    minp, disc, n = kw["min_points_per_bin"], kw["discount"], len(xs)
    K = kw["max_nof_bins" if kind == "dp" else "init_nof_bins"]
    g = np.linspace(lo, hi, K + 1)
    idx = [int(np.argmin(np.abs(g - e))) for e in edges]
    if np.any(np.abs(g[idx] - edges) > 1e-9 * (hi - lo)):
        return False
    if minp <= n < 2 * minp:
        return idx == [0, K]
    if kind == "greedy":
        return tuple(idx) in ref.greedy_outcomes(xs, eff, lo, hi, K, minp, disc, only=list(idx))[0]
    cost = [ref.bin_cost(xs, eff, g[a], g[b], b == K, disc) for a, b in zip(idx[:-1], idx[1:])]
    best, _ = ref.dp_optimum(xs, eff, lo, hi, K, minp, disc)
    return all(k >= max(minp, 1) for k, _ in cost) and sum(v for _, v in cost) <= best + 1e-9 * (np.max(np.abs(eff)) ** 2 + 1e-30) * (hi - lo)


def judge_dp(c, xs, eff, lo, hi, K, minp, disc):
    e = find(xs, eff, lo, hi, ("dp", dict(max_nof_bins=K, min_points_per_bin=minp, discount=disc, cat_limit=0)))
    c.op()
    expect(isinstance(e, np.ndarray), "no bins returned")
    idx = to_index(e, lo, hi, K)
    g = np.linspace(lo, hi, K + 1)
    tot = 0.0
    for a, b in zip(idx[:-1], idx[1:]):
        n, cost = ref.bin_cost(xs, eff, g[a], g[b], b == K, disc)
        expect(n >= max(minp, 1), "bin [%g, %g] holds %d instances", g[a], g[b], n)
        tot += cost
    c.state(idx)
    if minp <= len(xs) < 2 * minp:
        expect(idx == [0, K], "only one bin is possible, got %s", idx)
        return
    best, arg = ref.dp_optimum(xs, eff, lo, hi, K, minp, disc)
    sc = (np.max(np.abs(eff)) ** 2 + 1e-30) * (hi - lo)
    expect(tot <= best + 1e-9 * sc, "bins %s cost %.12g, but %s cost %.12g", idx, tot, arg, best)


def judge_greedy(c, xs, eff, lo, hi, K, minp, disc):
    e = find(xs, eff, lo, hi, ("greedy", dict(init_nof_bins=K, min_points_per_bin=minp, discount=disc, cat_limit=0)))
    c.op()
    expect(isinstance(e, np.ndarray), "no bins returned")
    idx = to_index(e, lo, hi, K)
    c.state(idx)
    if minp <= len(xs) < 2 * minp:
        expect(idx == [0, K], "only one bin is possible, got %s", idx)
        return
    ok, _ = ref.greedy_outcomes(xs, eff, lo, hi, K, minp, disc, only=idx if K > 20 else None)
    expect(tuple(idx) in ok, "greedy bins %s, the merge rule gives %s", idx, sorted(ok))


def _column(c, n):
    col = c.pick("column", [np.array(t) for t in itertools.combinations_with_replacement([0.0, 1.0, 1.5, 2.0, 4.0] if c.tier == "thorough" else [0.0, 1.0, 1.5, 4.0], n)])
    if col.min() == col.max():
        raise Skip()
    lo, hi = float(col.min()), float(col.max())
    if c.pick("limits", ["data", "wide"]) == "wide":
        lo, hi = lo - 1.0, hi + 2.0
    return col, lo, hi


def dp(c):
    n = c.pick("instances", [4, 3, 5] if c.tier == "thorough" else [4])
    col, lo, hi = _column(c, n)
    eff = np.array(c.pick("effects", [t for t in itertools.product([0.0, 1.0, 4.0], repeat=n)]))
    K = c.pick("bins", [2, 3, 4, 5] if c.tier == "thorough" else [2, 3, 5])
    minp = c.pick("min_points", [1, 0, 2])
    disc = c.pick("discount", [0.25, 0.0])
    judge_dp(c, col, eff, lo, hi, K, minp, disc)


def greedy(c):
    n = c.pick("instances", [4, 3, 5] if c.tier == "thorough" else [4])
    col, lo, hi = _column(c, n)
    eff = np.array(c.pick("effects", [t for t in itertools.product([0.0, 1.0, 4.0], repeat=n)]))
    K = c.pick("bins", [2, 4, 6, 8] if c.tier == "thorough" else [2, 4, 8])
    minp = c.pick("min_points", [1, 0, 2])
    disc = c.pick("discount", [0.25, 0.0])
    judge_greedy(c, col, eff, lo, hi, K, minp, disc)


def larger(c):
    """24-40 instances, structured effects, all scales of the effects (cost must never hit a sentinel)"""
    n = c.pick("instances", [24, 40])
    i = np.arange(n)
    xs = c.pick("column", [gen.Data("spread", (i * 7 % n) / 8.0), gen.Data("dense left", np.sort((i * 7 % n) / 8.0) ** 2),
                           gen.Data("lattice", (i % 9) * 1.0)]).X
    f = c.pick("effects", [gen.Data("two plateaus", np.where(xs < np.median(xs), 1.0, 5.0)),
                           gen.Data("ramp", xs * 2.0), gen.Data("zigzag", np.where(i % 2 == 0, 1.0, -1.0) * (1 + xs)),
                           gen.Data("flat", np.ones(n)), gen.Data("one outlier", np.where(i == 5, 64.0, 0.0)),
                           gen.Data("three plateaus", np.floor(3 * (xs - xs.min()) / (xs.max() - xs.min() + 1e-3)))]).X
    scale = c.pick("effect scale", [1.0, 2.0 ** 20, 2.0 ** -20])
    minp = c.pick("min_points", [3, 0, 1, 8, 12])
    disc = c.pick("discount", [0.3, 0.0, 0.9] if c.tier == "thorough" else [0.3])
    kind = c.pick("method", ["dp", "greedy"])
    K = c.pick("bins", [8, 5, 10] if kind == "dp" else [20, 100, 7, 2])
    if c.pick("units", ["plain", "shifted"]) == "shifted":
        xs = xs * 3.0 + 1024.0
    (judge_dp if kind == "dp" else judge_greedy)(c, xs, f * scale, float(xs.min()), float(xs.max()), K, minp, disc)


def many(c):
    """hundreds of instances and cells"""
    kind = c.pick("method", ["dp", "greedy"])
    n = c.pick("instances", [257, 1201])
    i = np.arange(n)
    xs = c.pick("column", [gen.Data("spread", (i * 7 % n) / 64.0), gen.Data("dense left", np.sort((i * 7 % n) / n) ** 3 * 8),
                           gen.Data("lattice", (i % 29) * 1.0)]).X
    f = c.pick("effects", [gen.Data("three plateaus", np.floor(3 * (xs - xs.min()) / (xs.max() - xs.min() + 1e-3))), gen.Data("ramp and noise", xs * 0.5 + (i * 37 % 101) / 101.0),
                           gen.Data("zigzag", np.where(i % 2 == 0, 1.0, -1.0) * (1 + xs)), gen.Data("wave", np.sin(xs * 3.0) * 10)]).X
    minp = c.pick("min_points", [10, 1, 60, n // 2 + 1])
    K = c.pick("bins", [20, 11] + ([40] if c.tier == "thorough" else []) if kind == "dp" else [20, 100] + ([333] if c.tier == "thorough" else []))
    if kind == "dp" and K > 20 and n > 500:
        raise Skip()
    (judge_dp if kind == "dp" else judge_greedy)(c, xs, f, float(xs.min()), float(xs.max()), K, minp, 0.3)


BOUNDS = ("dynamic programming: all multisets of 4 values over {0,1,1.5,4} (thorough: 3..5 values over {0,1,1.5,2,4}) x all effect vectors over {0,1,4} x 2 axis limits x cells 2..5 x "
          "min points 0..2 x 2 discounts, optimum over all partitions by brute force; greedy: the same with 2..8 cells, set of admissible outcomes; "
          "24/40-instance columns with up to 10 (dp) / 100 (greedy) cells; 257/1201 instances with 20 (40) / 100 (333) cells, optimum by recursion over all partitions")
ASSUMPTIONS = ["costs closer than 1e-9 (relative) count as ties: either side is accepted"]


def scenarios(tier):
    return [Scenario("dp-optimal-exhaustive", dp), Scenario("greedy-rule-exhaustive", greedy), Scenario("larger-structured", larger), Scenario("many-instances-and-cells", many)]
