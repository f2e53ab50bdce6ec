"""C21: the region data transformer."""
import itertools

import numpy as np

from mc import gen
from mc.common import expect, same
from mc.engine import Scenario, Skip, Opt
from effector.partitioning import DataTransformer


def cond(v, s, first):
    if s["type"] == "cat":
        return (v == s["position"]) == first
    return (v <= s["position"]) == first


def name(s, first):
    op = ("=" if first else "!=") if s["type"] == "cat" else ("<=" if first else ">")
    return "x%d%s%.2f" % (s["feature"], op, s["position"])


def reference(X, splits):
    N, D = X.shape
    cols, names = [], []
    for f in range(D):
        S = splits["feat_%d" % f]
        if not S:
            cols.append([float(v) for v in X[:, f]])
            names.append("x%d" % f)
            continue
        for code in itertools.product([0, 1], repeat=len(S)):
            cols.append([float(X[i, f]) if all(cond(X[i, s["feature"]], s, b == 0) for s, b in zip(S, code)) else 0.0 for i in range(N)])
            names.append("x%d | %s" % (f, " & ".join(name(s, b == 0) for s, b in zip(S, code))))
    return np.array(cols).T, names


def run(c, X, splits, order=None):
    given = {k: [dict(s) for s in splits[k]] for k in (order or splits)}
    keep = X.copy()
    t = DataTransformer(given)
    for again in range(2):
        got = t.transform(X)
        want, names = reference(X, splits)
        same(got, want, "transformed data", 1e-12)
        expect(list(t.new_names) == names, "column names %s, expected %s", t.new_names, names)
        c.op()
    expect(np.array_equal(X, keep) and X.dtype == keep.dtype, "the data was modified")
    # every row's value is in exactly one column of its feature
    k = 0
    for f in range(X.shape[1]):
        w = 2 ** len(splits["feat_%d" % f])
        same(np.sort(got[:, k:k + w] != 0, axis=1).sum(axis=1), (X[:, f] != 0) * 1, "number of columns that hold the value")
        same(got[:, k:k + w].sum(axis=1), X[:, f], "values", 1e-12)
        k += w
    expect(got.shape[1] == k, "%d columns, expected %d", got.shape[1], k)
    # transforming other data afterwards
    Y = X[::-1].copy() * 1.0
    Y[0] += 0.5
    same(t.transform(Y), reference(Y, splits)[0], "other data", 1e-12)
    c.op()
    c.state(names, got)


def split_options(D, me):
    out = []
    for f in range(D):
        if f != me:
            out += [dict(type="cont", feature=f, position=p) for p in (0.0, 0.5, 1.0)] + [dict(type="cat", feature=f, position=p) for p in (0.0, 1.0)]
    return out


def exhaustive(c):
    """all data columns hitting and missing the positions, all split lists of length 0-2"""
    n = 4 if c.tier == "thorough" else 3
    a = c.pick("x0", gen.columns([1.0, 2.0], n))
    b = c.pick("x1", gen.columns([0.0, 0.5, 1.0], n))
    one = split_options(2, 0)
    L = [[]] + [[s] for s in one] + [[s, t] for s in one for t in one]
    S = c.pick("splits of x0", L)
    T = c.pick("splits of x1", [[], [dict(type="cont", feature=0, position=1.5)], [dict(type="cat", feature=0, position=2.0)]])
    run(c, np.stack([a, b], axis=1), {"feat_0": S, "feat_1": T})


def shaped(c):
    i = np.arange(12)
    X = np.stack([(i * 5 % 12) - 5.5, (i % 3) * 1.0, np.cos(i) + 3, (i // 4) * 0.5], axis=1)
    if c.pick("storage", ["float", "int"]) == "int":
        X = X.round().astype(int)
    parts = {f: [[], [split_options(4, f)[0]], [split_options(4, f)[k] for k in (1, 8)], [split_options(4, f)[k] for k in (2, 4, 12)]] for f in range(4)}
    S = {"feat_%d" % f: c.pick("splits of x%d" % f, [Opt(str(len(s)), s) for s in parts[f]]) for f in range(4)}
    order = c.pick("order", [None, ["feat_2", "feat_0", "feat_3", "feat_1"]])
    run(c, X, S, order)


def fine(c):
    """positions with more digits than the names show, and values on both sides of them"""
    pos = c.pick("position", [0.1255, 1.0 / 3, -0.0049, 0.005, 2.0 / 3 + 5, 0.125, 1e-6, -1e-9, 12345.678])
    typ = c.pick("type", ["cont", "cat"])
    eps = [0.0, 1e-9, 1e-4, 0.004, 0.006]
    v = np.array(sorted({pos + s * e for e in eps for s in (-1, 1)} | {round(pos, k) for k in (0, 1, 2, 3, 4)} | {pos, 0.0}))
    k = c.pick("rotation", [0, 3])
    X = np.stack([np.roll(v, k), np.arange(len(v)) + 1.0, np.roll(v, 1) - 0.001], axis=1)
    S = {"feat_0": [], "feat_1": [dict(type=typ, feature=0, position=pos)], "feat_2": [dict(type="cont", feature=1, position=2.5), dict(type=typ, feature=0, position=pos)]}
    if c.pick("own splits", [False, True]):
        S["feat_0"] = [dict(type="cont", feature=2, position=pos - 0.0013)]
    run(c, X, S)


def many(c):
    """features ten and above, conditions on them, many rows"""
    D = 13
    N = c.pick("rows", [26, 1203])
    i = np.arange(N)
    X = np.stack([(i * (d + 2) % 5) / 2.0 if d % 2 else (i * (d + 3) % 11) - 4.5 for d in range(D)], axis=1)
    one = c.pick("conditions", [[(1, "cat", 0.5)], [(10, "cont", 1.5)], [(11, "cat", 1.0), (2, "cont", 0.25)], [(12, "cont", -1.5), (1, "cont", 0.75), (11, "cat", 2.0)]])
    where = c.pick("features", [[0], [1, 10], [12, 11, 2], list(range(D))])
    S = {"feat_%d" % f: [dict(type=t, feature=g, position=p) for g, t, p in one if g != f] if f in where else [] for f in range(D)}
    run(c, X, S, c.pick("order", [None, ["feat_%d" % (k * 5 % D) for k in range(D)]]))


BOUNDS = "13 features and 1203 rows; positions with more digits than names show, with values next to them; all 2-feature data sets of 3 (thorough: 4) rows over a small alphabet x every list of at most 2 splits; 4 features x 0-3 splits each x storage x order of the split dictionary"
ASSUMPTIONS = ["split dictionaries have one entry per feature, named feat_<index>"]


def scenarios(tier):
    return [Scenario("all-splits", exhaustive), Scenario("shaped", shaped), Scenario("fine-positions", fine), Scenario("many-features-and-rows", many)]
