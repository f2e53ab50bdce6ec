"""C19: additive models get exact effects, no heterogeneity and no regions."""
import numpy as np

from mc import gen, ref
from mc.common import GLOBAL, REGIONAL, CENTERINGS, make, make_regional, expect, same, binning, is_ale, is_pdp
from mc.checks.c12 import fit_args, BASE, FIXED1, FIXED2, shaped_sets
from mc.engine import Scenario, Skip, Opt
from mc.history import Op, observe

SHAP = True

# one-dimensional functions with their derivatives
G = {"linear": (lambda x: 1.5 * x - 0.25, lambda x: 0 * x + 1.5), "square": (lambda x: 0.5 * x ** 2 - x, lambda x: x - 1.0),
     "cubic": (lambda x: 0.25 * (x * x * x) + x, lambda x: 0.75 * x ** 2 + 1), "sine": (lambda x: np.sin(2 * x), lambda x: 2 * np.cos(2 * x)),
     "zero": (lambda x: 0 * x, lambda x: 0 * x), "step": (lambda x: np.where(x > 0.7, 2.0, -1.0), lambda x: 0 * x), "abs": (lambda x: np.abs(x - 0.6), lambda x: np.sign(x - 0.6))}


def additive(names):
    parts = [G[n] for n in names]

    def f(X):
        return 0.75 + sum(g(X[:, i]) for i, (g, _) in enumerate(parts))

    def jac(X):
        return np.stack([d(X[:, i]) for i, (_, d) in enumerate(parts)], axis=1)
    m = gen.Model("+".join(names), f, jac)
    m.parts = parts
    return m


def up_to_constant(got, want, what, tol):
    same(got - got[0], want - want[0], what, tol)


def check(c, kind, X, m, foi, ce, spec):
    g, dg = m.parts[foi]
    xs = X[:, foi]
    lo, hi = xs.min(), xs.max()
    pos = np.array([lo, hi, 0.5 * (lo + hi), lo + 0.3 * (hi - lo), lo])
    smooth = m.mc_name.split("+")[foi]
    if kind.endswith("num") and smooth in ("step", "abs"):
        raise Skip()
    o = make(kind, X, m, nof_instances="all")
    tol = 2e-4 if kind.endswith("num") else 1e-7
    if is_pdp(kind):
        yy = o.eval(foi, pos, centering=ce, return_all=True)
        y, h = o.eval(foi, pos, True, ce)
        if kind == "PDP":
            up_to_constant(y, g(pos), "PDP", tol)
        else:
            same(y - (0 if ce is False else y[0]), dg(pos) - (0 if ce is False else dg(pos)[0]), "derivative PDP", tol)
        if ce is not False or kind != "PDP":
            same(yy, np.repeat(yy[:, :1], len(X), axis=1), "ICE curves coincide", tol)
            same(h, np.zeros(len(pos)), "heterogeneity", tol)
    elif kind == "SHAP":
        if smooth not in ("linear", "square", "cubic", "zero") or len(set(xs)) < 6:
            raise Skip()
        y, h = o.eval(foi, pos, True, ce)
        up_to_constant(y, g(pos), "SHAP-DP", 1e-5)
        same(h, np.zeros(len(pos)), "heterogeneity", 1e-5)
        if ce is False:      # SHAP values are centred by themselves
            same([y[0]], [g(lo) - np.mean(g(xs))], "SHAP-DP at the left end", 1e-5)
    else:
        if kind != "ALE" and smooth not in ("linear", "zero"):
            raise Skip()
        r = observe(Op("", lambda q: q.fit(foi, binning_method=binning(spec), centering=ce)), o)
        if r[0] == "raises":
            raise Skip()
        E = np.asarray(o.feature_effect["feature_%d" % foi]["limits"], float)
        n = np.bincount(ref.bin_of(xs, E), minlength=len(E) - 1)
        at = E if kind == "ALE" else pos
        if kind == "ALE" and np.any(n == 0):
            raise Skip()
        y, h = o.eval(foi, at, True, ce)
        up_to_constant(y, g(at), kind, tol)
        if np.max(n) >= 2:
            same(h, np.zeros(len(at)), "heterogeneity", tol if kind != "RHALE-num" else 1e-2)
    if ce == "zero_start":
        y = o.eval(foi, np.array([lo]), centering=ce)
        same(y, [0.0], "curve at its start", tol)
    c.op(2)
    c.state(y)


def columns(c):
    """every data column, with a second feature that determines or is determined by it"""
    kind = c.pick("method", [k for k in GLOBAL if k != "SHAP"])
    n = 5 if c.tier == "thorough" else 4
    col = c.pick("column", [v for v in gen.columns([0.0, 0.5, 1.0, 2.0], n) if len(set(v)) > 1])
    dep = c.pick("second feature", ["equal", "negated", "own"])
    names = c.pick("model", [("square", "linear"), ("linear", "square"), ("step", "zero")])
    ce = c.pick("centering", [True, False, "zero_start"])
    spec = c.pick("binning", [("fixed", dict(nof_bins=k, min_points_per_bin=0, cat_limit=0)) for k in (1, 2, 3)] + [("fixed", dict(nof_bins=2, min_points_per_bin=0, cat_limit=9))] if is_ale(kind) else [FIXED1])
    other = {"equal": col, "negated": 1 - col, "own": np.array([0.25, 1.0, -0.5, 0.75, 0.0][:n])}[dep]
    check(c, kind, np.stack([col, other], axis=1), additive(names), 0, ce, spec)


def shaped(c):
    kind = c.pick("method", GLOBAL)
    X = c.pick("data", shaped_sets() + [gen.Data("16x3 dependent", np.stack([np.sin(np.arange(16.0)), np.sin(np.arange(16.0)) ** 2, np.arange(16.0) / 8], axis=1))]).X
    D = X.shape[1]
    names = c.pick("model", [(["linear", "square", "cubic", "sine"] * 2)[k:k + D] for k in range(4)] + [["step", "abs", "zero", "linear"][:D]])
    foi = c.pick("feature", list(range(D)))
    ce = c.pick("centering", CENTERINGS)
    spec = c.pick("binning", [FIXED2, FIXED1, ("fixed", dict(nof_bins=5, min_points_per_bin=0, cat_limit=0))] + ([("dp", dict(max_nof_bins=4, min_points_per_bin=2, discount=0.25, cat_limit=0)), ("greedy", dict(init_nof_bins=8, min_points_per_bin=2, discount=0.25, cat_limit=0))] if kind.startswith("RHALE") else []) if is_ale(kind) else [FIXED1])
    if kind == "SHAP" and c.tier == "quick" and (D > 3 or ce not in (False, "zero_start")):
        raise Skip()
    check(c, kind, X, additive(names), foi, ce, spec)


def regional(c):
    kind = c.pick("method", REGIONAL)
    X = c.pick("data", shaped_sets()[:2] if kind == "SHAP" and c.tier == "quick" else shaped_sets()).X
    D = X.shape[1]
    names = c.pick("model", [(["linear", "square", "cubic", "sine"] * 2)[k:k + D] for k in range(4)])
    foi = c.pick("feature", list(range(D)))
    ce = c.pick("centering", [True, "zero_start"] + ([False] if kind != "PDP" else []))
    depth = c.pick("depth", [1, 2])
    spec = c.pick("binning", [FIXED2, FIXED1, ("fixed", dict(nof_bins=5, min_points_per_bin=0, cat_limit=0))]) if is_ale(kind) else FIXED1
    own = names[foi]
    if kind.startswith("RHALE") and own not in ("linear", "zero") or kind == "SHAP" and (own == "sine" or len(set(X[:, foi])) < 8) or kind == "SHAP" and c.tier == "quick" and (ce is not False or depth > 1):
        raise Skip()
    obj = make_regional(kind, X, additive(names), nof_instances="all", feature_types=["cont"] * D)
    obj.fit(foi, **fit_args(dict(BASE, depth=depth, thres=0.0, small=0.01, minp=4, npos=4, centering=ce, spec=spec), kind))
    c.op()
    tree = obj.tree_pruned["feature_%d" % foi]
    expect(len(tree.nodes) == 1, "sub-regions of an additive model: %s", [n.name for n in tree.nodes])
    root = obj.tree_full["feature_%d" % foi].nodes[0]
    if abs(root.heterogeneity) < 1e30:
        same([root.heterogeneity], [0.0], "heterogeneity of the whole data set", 1e-2 if kind.endswith("num") else 1e-5)
    c.state([n.name for n in obj.tree_full["feature_%d" % foi].nodes])


BOUNDS = ("every column over 4 values for 4 (thorough: 5) instances x 3 dependences x 3 models x centerings x bin counts x 7 methods; 4 shaped data sets x 5 models x features x methods x binning; "
          "8 regional methods x 3 data sets x 4 models x depths")
ASSUMPTIONS = ["ALE is exact at bin edges when no bin is empty (empty bins are interpolated, by definition)", "SHAP-DP: functions a cubic spline represents"]


def scenarios(tier):
    return [Scenario("all-columns", columns), Scenario("shaped", shaped), Scenario("regional", regional)]
