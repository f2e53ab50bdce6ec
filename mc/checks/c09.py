"""C09: subsets of instances.  The random generator is the environment: its answer is a choice of the explorer."""
import contextlib
import itertools

import numpy as np

from mc import gen
from mc.common import GLOBAL, REGIONAL, make, make_regional, binning, is_ale, is_pdp, expect
from mc.engine import Opt, Scenario, Skip
from mc.history import Op, observe, difference

SHAP = True


@contextlib.contextmanager
def environment(c, orders):
    """np.random.choice(N, n, replace=False) returns whatever the explorer says, in any of `orders` orders"""
    real = np.random.choice

    def choice(a, size=None, replace=True, p=None):
        pool = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
        if size is None or np.ndim(size) != 0 or (not replace and size > len(pool)):
            return real(a, size, replace, p)
        n = int(size)
        if replace:
            opts = [tuple([len(pool) - 1] * n), tuple(range(n))]
        else:
            opts = list(itertools.combinations(range(len(pool)), n))
        outs = []
        for o in opts:
            o = np.array(o, dtype=int)
            outs.append(o)
            if orders > 1 and n > 1:
                outs.append(np.roll(o[::-1], 1))
        k = c.pick("np.random.choice(%d,%d)" % (len(pool), n), [Opt(str(pool[o].tolist()), o) for o in outs])
        return pool[k].copy()

    np.random.choice = choice
    try:
        yield
    finally:
        np.random.choice = real


_memo = {}


def candidates(key, subsets, run):
    if key not in _memo:
        _memo[key] = [observe(Op("x", run), s) for s in subsets]
    return _memo[key]


FIT = {"ALE": dict(binning_method=("fixed", dict(nof_bins=2, min_points_per_bin=0, cat_limit=0))),
       "RHALE": dict(binning_method=("fixed", dict(nof_bins=2, min_points_per_bin=0, cat_limit=0)))}


def fit_kw(kind):
    if not is_ale(kind):
        return None
    return {"binning_method": binning(FIT["ALE" if kind == "ALE" else "RHALE"]["binning_method"])}


def data(N):
    i = np.arange(N)
    return np.stack([(i * 3 % N) / 4.0, (i * i % 7) / 2.0 - 1.0 + 0.125 * i], axis=1)


def own_effects(X):
    N, D = X.shape
    return np.array([[((7 * i + 3 * d) % 11) / 4.0 - (i % 3) * 0.5 for d in range(D)] for i in range(N)])


XS = np.array([0.0, 0.3, 1.0, 0.55])


def results(kind, obj):
    """what the object answers, identified up to the order of the instances"""
    out = []
    for f in (0, 1):
        if is_ale(kind):
            obj.fit(f, **fit_kw(kind))
        y, h = obj.eval(f, XS, heterogeneity=True)
        out += [y, h, obj.eval(f, XS, centering=True)]
        if is_pdp(kind):
            yy = obj.eval(f, XS, return_all=True)
            out.append(yy[:, np.lexsort(yy[::-1])])
    return out


def global_subset(c):
    kind = c.pick("method", GLOBAL)
    N = (7 if kind == "SHAP" else 6) if c.tier == "quick" else 7
    n = c.pick("nof_instances", ["all", N, N + 3, N - 1, N - 2] + ([3, 2, 1] if kind != "SHAP" else []))
    lims = c.pick("axis limits", ["data", "given"])
    X = data(N)
    m = gen.poly(2)
    E = own_effects(X)
    L = np.array([[-1.0, -2.0], [3.0, 5.0]])

    def build(rows, nof):
        kw = {} if lims == "data" else {"axis_limits": L.copy()}
        return make(kind, X[rows], m, effects=E[rows] if kind == "RHALE-eff" else None, nof_instances=nof, **kw)
    k = N if n == "all" else min(n, N)
    subsets = list(itertools.combinations(range(N), k))
    want = candidates((kind, N, n, lims), subsets, lambda s: results(kind, build(list(s), "all")))
    with environment(c, 2):
        got = observe(Op("x", lambda _: results(kind, build(list(range(N)), n))), None)
    c.op(8)
    tol = 1e-4 if "num" in kind else 1e-8
    d = [difference(got, w, tol) for w in want]
    expect(any(x is None for x in d), "results are those of no %d distinct rows; with all candidates e.g. %s", k, d[0])
    c.state(got)


def tree_results(kind, obj):
    obj.fit(0, heter_pcg_drop_thres=0.05, heter_small_enough=0.0, max_depth=1, nof_candidate_splits_for_numerical=3, min_points_per_subregion=2,
            **({} if not is_ale(kind) else fit_kw(kind)))
    t = obj.tree_full["feature_0"]
    out = []
    for n in t.nodes:
        d = np.asarray(n.data["data"])
        o = np.lexsort(d.T)
        e = n.data["data_effect"]
        out.append([n.name, n.level, float(n.heterogeneity), n.nof_instances, float(n.weight), d[o], None if e is None else np.asarray(e)[o]])
    return out


def regional_subset(c):
    kind = c.pick("method", REGIONAL)
    N = 9 if kind == "SHAP" else 7
    n = c.pick("nof_instances", ["all", N, N + 3, N - 1] + ([N - 2, N - 3] if kind != "SHAP" else []))
    X = data(N)
    m = gen.cond(2, 1, 0.5)
    E = own_effects(X)
    L = np.stack([X.min(axis=0), X.max(axis=0)])

    def build(rows, nof):
        return make_regional(kind, X[rows], m, effects=E[rows] if kind == "RHALE-eff" else None, nof_instances=nof, axis_limits=L.copy(),
                             feature_types=["cont", "cont"])
    k = N if n == "all" else min(n, N)
    subsets = list(itertools.combinations(range(N), k))
    want = candidates((kind, N, n, "regional"), subsets, lambda s: tree_results(kind, build(list(s), "all")))
    with environment(c, 2):
        got = observe(Op("x", lambda _: tree_results(kind, build(list(range(N)), n))), None)
    c.op(2)
    tol = 1e-4 if "num" in kind else 1e-8
    d = [difference(got, w, tol) for w in want]
    expect(any(x is None for x in d), "the tree is that of no %d distinct rows; e.g. %s", k, d[0])
    c.state(got)


def defaults(c):
    """the documented default limits: which rows of a large data set are explained (rows are recognised by the model's output)"""
    kind = c.pick("method", ["PDP", "dPDP-jac", "dPDP-num", "ALE", "RHALE-jac", "R-PDP", "R-dPDP-jac", "R-ALE", "R-RHALE-jac"])
    base = kind.replace("R-", "")
    N = c.pick("N", [299, 300, 301, 350])
    n = c.pick("nof_instances", [None, "all", 300, 120, 1])
    rep = c.pick("repetition", list(range(3)))
    i = np.arange(N)
    X = np.stack([(i * 7 % 16) / 8.0, i * 1.0], axis=1)
    seen = []

    def f(A):
        A = np.asarray(A)
        seen.append(A[:, 1].copy())
        return A[:, 0] * 0.5 + A[:, 1]

    m = gen.Model("id", lambda A: A[:, 0] * 0.5 + A[:, 1], lambda A: np.stack([np.full(len(A), 0.5), np.ones(len(A))], axis=1))
    m.f = f
    kw = {} if n is None else {"nof_instances": n}
    default = {"PDP": 300, "dPDP-jac": 300, "dPDP-num": 300, "R-PDP": 1000, "R-dPDP-jac": 1000}.get(kind, "all")
    n_eff = default if n is None else n
    want = N if n_eff == "all" else min(n_eff, N)
    if want == 1:
        if not is_pdp(base) or kind.startswith("R-"):
            raise Skip()
        kw["axis_limits"] = np.array([[0.0, 0], [2, N]])
    if kind.startswith("R-"):
        obj = make_regional(base, X, m, feature_types=["cont", "cont"], **kw)
        obj.fit(0, max_depth=1, nof_candidate_splits_for_numerical=2, heter_small_enough=0.0)
        nodes = obj.tree_full["feature_0"].nodes
        ids = np.asarray(nodes[0].data["data"])[:, 1]
        expect(nodes[0].nof_instances == want, "root reports %d instances, expected %d", nodes[0].nof_instances, want)
        rows = np.asarray(nodes[0].data["data"])
        expect(np.all(X[rows[:, 1].astype(int)] == rows), "the root holds rows that are not rows of the data")
    elif is_pdp(base):
        obj = make(base, X, m, **kw)
        yy = obj.eval(0, np.array([0.0, 1.0]), return_all=True)
        expect(yy.shape[1] == want, "%d instances explained, expected %d", yy.shape[1], want)
        if base != "PDP":
            c.state(yy.shape)
            return
        ids = yy[0]
    else:
        obj = make(base, X, m, **kw)
        del seen[:]
        obj.fit(0, binning_method=binning(("fixed", dict(nof_bins=4, min_points_per_bin=0, cat_limit=0))))
        if base != "ALE":
            c.state(want)
            return
        ids = np.unique(np.concatenate(seen))
    ids = np.sort(np.asarray(ids))
    expect(len(ids) == want and len(np.unique(np.round(ids, 6))) == want, "%d distinct rows explained, expected %d", len(np.unique(ids)), want)
    expect(np.all(np.isin(np.round(ids, 6), i)), "explained rows are not rows of the data")
    c.op(2)
    c.state(ids)


BOUNDS = ("every outcome (all C(N,n) subsets, two orders each, per random draw) of the selection for N = 6 or 7 and n in {1, 2, 3, N-2, N-1, N, N+3, 'all'}, "
          "8 global and 8 regional methods; default limits with N in {299, 300, 301, 350}")
ASSUMPTIONS = ["feature types and axis limits of regional effects are given (by default they come from all of the data)",
               "if rows were drawn by another generator than np.random.choice, its single outcome would be compared with all subsets instead"]


def scenarios(tier):
    return [Scenario("global-subsets", global_subset), Scenario("regional-subsets", regional_subset), Scenario("default-limits", defaults)]
