"""C04: SHAP dependence curve = spline through exact Shapley values."""
import itertools

import numpy as np

from mc import gen, ref, sequences
from mc.common import make, same, expect, figure
from mc.engine import Scenario, Skip

TOL = 1e-6
SHAP = True


def positions(lo, hi):
    return np.concatenate([np.linspace(lo, hi, 9), [hi, lo, lo - 0.25 * (hi - lo), hi + 0.125 * (hi - lo)]])


def scatter_pairs(obj, feat):
    """the (feature value, SHAP value) pairs, as drawn for the user"""
    with figure() as fig:
        obj.plot(feat, heterogeneity="shap_values", centering=False)
        ln = [l for l in fig.axes[0].lines if l.get_marker() == "x"]
        expect(len(ln) >= 1, "no SHAP values drawn")
        ln = max(ln, key=lambda l: len(l.get_xdata()))
        return np.asarray(ln.get_xdata(), float), np.asarray(ln.get_ydata(), float)


def _check(c, m, X, feat, obj, plot=False):
    lo, hi = X[:, feat].min(), X[:, feat].max()
    R = ref.ShapRef(m.f, X, feat, lo, hi)
    xs = positions(lo, hi)
    same(obj.eval(feat, xs), R.mean(xs), "SHAP curve", TOL)
    y, s = obj.eval(feat, xs, heterogeneity=True)
    same(y, R.mean(xs), "SHAP curve (with heterogeneity)", TOL)
    same(s, R.std(xs), "SHAP heterogeneity", TOL)
    c.op(2)
    if plot:
        gx, gy = scatter_pairs(obj, feat)
        phi = ref.shapley(m.f, X)[:, feat]
        o1, o2 = np.lexsort((gy, gx)), np.lexsort((phi, X[:, feat]))
        same(gx[o1], X[o2, feat], "feature values paired with SHAP values", 1e-9)
        same(gy[o1], phi[o2], "SHAP values", 1e-7)
        c.op()
    c.state(y, s)


def permutations(c):
    """every order of the instances along the feature of interest"""
    D = c.pick("features", [2, 3])
    feat = c.pick("feature", list(range(D)))
    base = [0.0, 0.5, 1.0, 2.0, 3.0] + ([4.5] if c.tier == "thorough" else [])
    col = c.pick("column", [np.array(p) for p in itertools.permutations(base)])
    m = c.pick("model", [gen.poly, gen.prod, gen.lin])(D)
    X = gen.with_column(col, D, feat)
    _check(c, m, X, feat, make("SHAP", X, m))


def shaped(c):
    i = np.arange(30)
    sets = [gen.Data("12x1", ((i[:12] * 5 % 12) / 4.0)[:, None]),
            gen.Data("12x2", np.stack([(i[:12] * 5 % 12) / 4.0, np.cos(i[:12] * 1.0)], axis=1)),
            gen.Data("30x3", np.stack([(i * 7 % 30) / 8.0, np.cos(i * 1.0), np.sin(i * 2.0)], axis=1)),
            gen.Data("30x4", np.stack([(i * 7 % 30) / 8.0, np.cos(i * 1.0), np.sin(i * 2.0), (i * 11 % 30) / 32.0], axis=1)),
            gen.Data("30x2 ties", np.stack([(i % 10) * 1.0, (i * 7 % 13) - 6.0], axis=1)),
            gen.Data("8x3 duplicate rows", np.tile(np.array([[0, 1, 2.0], [1, 0, -1], [2, 3, 0.5], [4, -1, 1]]), (2, 1)) + np.array([0, 0, 0.0]))]
    d = c.pick("data", sets)
    X = d.X
    D = X.shape[1]
    m = c.pick("model", [gen.poly, gen.prod, gen.additive, gen.step, gen.const])(D)
    feats = list(range(D))
    order = c.pick("order", ["forward", "backward"])
    obj = make("SHAP", X, m, nof_instances="all")
    for feat in (feats if order == "forward" else feats[::-1]):
        if len(set(X[:, feat])) < 5:
            continue
        _check(c, m, X, feat, obj, plot=True)


def units(c):
    """values of the feature in any unit, next to each other or far away"""
    D = c.pick("features", [2, 3])
    feat = c.pick("feature", list(range(D)))
    unit, shift = c.pick("unit, shift", [(2.0 ** -21, 0.0), (2.0 ** 20, 0.0), (8.0, 1024.0), (-2.0 ** 3, 0.0)])
    base = [0.0, 0.5, 1.0, 2.0, 3.0]
    col = c.pick("column", [np.array(p) for p in (itertools.permutations(base) if c.tier == "thorough" else [base, base[::-1], (1.0, 0.0, 3.0, 0.5, 2.0), (2.0, 3.0, 0.5, 0.0, 1.0), (0.5, 3.0, 0.0, 2.0, 1.0)])])
    m = c.pick("model", [gen.poly, gen.prod])(D)
    out = c.pick("output", [1.0, 64.0])

    def told(Z):
        W = np.array(Z, dtype=float)
        W[:, feat] = (W[:, feat] - shift) / unit
        return out * m.f(W)
    X = gen.with_column(col, D, feat)
    X[:, feat] = X[:, feat] * unit + shift
    w = gen.Model("%s in another unit" % m.mc_name, told, None)
    _check(c, w, X, feat, make("SHAP", X, w), plot=True)


BOUNDS = ("values in units from 2^-21 to 2^20; every sequence of 1-3 (5) evaluation positions over 4 values for every method and centering; all orders of a 5-value column x D in {2,3} x feature x 2-3 models; 6 data sets up to 30x4 x 5 models, every "
          "feature from one object in two orders; Shapley values by enumeration of all coalitions")
ASSUMPTIONS = ["at most 100 instances and 10 features (beyond that the shap package itself subsamples or approximates)",
               "the spline is SciPy's UnivariateSpline, trusted", "features with at least 5 distinct values (a cubic spline is not determined otherwise)"]


def scenarios(tier):
    return [Scenario("all-orders", permutations), Scenario("shaped-data", shaped), Scenario("units", units), sequences.scenario(["SHAP"])]
