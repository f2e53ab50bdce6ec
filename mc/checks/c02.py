"""C02: ALE definition."""
import numpy as np

from mc import gen, ref, sequences
from mc.common import make, same, expect, bm, has_two_in_a_bin
from mc.engine import Scenario, Skip


def positions(lo, hi, edges):
    mids = 0.5 * (edges[1:] + edges[:-1])
    q = edges[:-1] + 0.3125 * np.diff(edges)
    return np.concatenate([[hi, lo, lo - 1.0, hi + 2.5], edges, mids, q, q[:1], [0.5 * (lo + hi)]])


def reference(m, X, feat, lims, K, minp, cat):
    lo, hi = lims[0, feat], lims[1, feat]
    sel = ref.inside(X, lims, feat)
    Y = X[sel]
    edges = ref.fixed_edges(Y[:, feat], lo, hi, K, minp, cat)
    if edges is None:
        return None
    eff = ref.ale_effects(m.f, Y, feat, edges)
    return ref.AleRef(Y[:, feat], eff, edges, lo, hi)


def _at_edges(X, feat, edges):
    for e in (edges[0], edges[-1]):
        Z = X.copy()
        Z[:, feat] = e
        yield Z


def _check(c, m, X, feat, K, minp, cat, method, lims=None, kw=None):
    L = ref.limits_of(X) if lims is None else lims
    R = reference(m, X, feat, L, K, minp, cat)
    if R is None or not R.defined():
        raise Skip()   # refusals are C06's business; a curve needs one bin with two instances
    obj = make("ALE", X, m, **(kw or {}))
    if method is None:
        obj.fit(feat)
    else:
        obj.fit(feat, binning_method=method)
    xs = positions(L[0, feat], L[1, feat], R.edges)
    # rounding of f at the bin edges, relative to the size of the curve
    fs = max(ref.scale(m.f(Z)) for Z in _at_edges(X, feat, R.edges))
    want = R.eval(xs)
    tol = 1e-11 * (1 + fs / ref.scale(want)) * len(R.edges)
    y = obj.eval(feat, xs)
    same(y, want, "ALE curve", tol)
    y2, h = obj.eval(feat, xs, heterogeneity=True)
    same(y2, want, "ALE curve (with heterogeneity)", tol)
    wh = R.heter(xs)
    same(h, wh, "ALE heterogeneity", 1e-9 * (1 + fs / ref.scale(wh)))
    c.op(3)
    c.state(y, h)


def exhaustive(c):
    """every 4-instance column over a small alphabet, every small bin layout"""
    n, vals = (5, [0.0, 0.5, 1.0, 2.0]) if c.tier == "thorough" else (4, [0.0, 0.5, 1.0, 2.0])
    D = c.pick("features", [2, 1])
    feat = c.pick("feature", list(range(D)))
    col = c.pick("column", gen.columns(vals, n))
    if len(set(col)) == 1:
        raise Skip()
    K = c.pick("bins", [1, 2, 3, 4, 8])
    cat = c.pick("cat_limit", [0, 3])
    mk = c.pick("model", [gen.poly, gen.step])
    X = gen.with_column(col, D, feat)
    _check(c, mk(D), X, feat, K, 0, cat, bm.Fixed(nof_bins=K, min_points_per_bin=0, cat_limit=cat))


def shaped(c):
    """defaults ('fixed', no argument) and the option object, more instances, more models, int output"""
    i = np.arange(24)
    wide = gen.Data("24x3 continuous", np.stack([(i * 7 % 24) / 8.0, np.cos(i * 1.0), np.sin(i * 2.0)], axis=1))
    offs = gen.Data("24x3 far from zero", wide.X * 0.5 + np.array([1024.0, -2048.0, 3.0]))
    tiny = gen.Data("24x3 small range", wide.X * 2.0 ** -10)
    big = gen.Data("24x3 huge range", wide.X * 2.0 ** 12)
    vast = gen.Data("24x3 values beyond 1e9", wide.X * 2.0 ** 30)
    i2 = np.arange(30)
    uneven = gen.Data("30x2 uneven integers", np.stack([np.array([1., 2, 5, 9, 17])[i2 % 5], (i2 % 3) - 1.0], axis=1))
    d = c.pick("data", [wide, offs, tiny, big, vast, uneven] + gen.small_sets())
    X = d.X
    D = X.shape[1]
    feat = c.pick("feature", list(range(D)))
    if X[:, feat].min() == X[:, feat].max():
        raise Skip()
    mk = c.pick("model", [gen.poly, gen.prod, gen.intout, gen.const, gen.additive])
    method = c.pick("binning", ["default", "fixed", (20, 0, 15), (5, 0, 0), (3, 2, 4), (7, 1, 2), (50, 0, 10)])
    if isinstance(method, str):
        K, minp, cat = 20, 0, 15
        arg = None if method == "default" else "fixed"
    else:
        K, minp, cat = method
        arg = bm.Fixed(nof_bins=K, min_points_per_bin=minp, cat_limit=cat)
    _check(c, mk(D), X, feat, K, minp, cat, arg)


def limits(c):
    """axis limits wider than the data: leading/trailing empty bins"""
    X = gen.with_column(c.pick("column", [np.array(x, float) for x in ([0, 0, 2, 2], [0, 1, 1, 2], [0.5, 0.5, 0.5, 1], [2, 0, 1, 1], [0, 0, 2, 2, 2, 0.5])]), 2, 0)
    lims = np.array([[c.pick("lo", [0.0, -1.0, -4.0]), -3.0], [c.pick("hi", [2.0, 3.0, 8.0]), 3.0]])
    K = c.pick("bins", [2, 3, 5, 6, 12])
    m = c.pick("model", [gen.poly, gen.step])(2)
    _check(c, m, X, 0, K, 0, 0, bm.Fixed(nof_bins=K, min_points_per_bin=0, cat_limit=0), lims, {"axis_limits": lims})


def large(c):
    """more instances, bins and features than any internal block would hold"""
    N, D, K = c.pick("N, D, bins", [(33, 3, 300), (257, 3, 64), (1031, 3, 20), (1031, 17, 33), (2503, 2, 101), (5003, 3, 7), (20011, 2, 20)])
    i = np.arange(N)
    base = np.stack([(i * 7919 % N) // 3 / 32.0] + [((i * (2 * d + 3)) % 61) / 16.0 - 1 for d in range(1, D)], axis=1)
    feat = c.pick("feature", sorted({0, 1, D - 1}) if N < 5000 else [0])
    mk = c.pick("model", [gen.poly, gen.additive] if N < 5000 else [gen.poly])
    minp, cat = c.pick("min points, cat limit", [(0, 0), (0, 15)] if N < 5000 else [(0, 15)])
    _check(c, mk(D), base, feat, K, minp, cat, bm.Fixed(nof_bins=K, min_points_per_bin=minp, cat_limit=cat))


def accumulate(c):
    """the accumulation function itself, every arrangement of edges and bin effects"""
    from effector import utils
    edges = c.pick("edges", [np.array(e, float) for e in ([0, 1], [0, 1, 2], [0, 1.5, 2], [-3, -1, 0, 4], [1, 2, 2.5, 10, 11])])
    K = len(edges) - 1
    eff = np.array([c.pick("effect%d" % k, [1.0, -2.0, 0.0]) for k in range(K)])
    xs = positions(edges[0], edges[-1], edges)
    got = utils.compute_accumulated_effect(xs.copy(), edges.copy(), eff.copy(), np.diff(edges))
    same(got, ref.accumulate(xs, edges, eff), "accumulated effect", 1e-12)
    c.op()
    c.state(got)


BOUNDS = ("every sequence of 1-3 (5) evaluation positions over 4 values for every method and centering; all 4-instance columns over {0,.5,1,2} (thorough: 5) x feature position x 5 bin counts x categorical on/off x 2 models; "
          "14 shaped data sets x 5 models x 7 binning options; wide axis limits; up to 20011 instances, 17 features and 300 bins; accumulation over all 3-valued effect vectors on 5 edge layouts")
ASSUMPTIONS = ["curves are compared only where some bin holds two instances (otherwise the library refuses, see DESIGN.md)",
               "relative tolerance 1e-8 (1e-6 for the heterogeneity)"]


def scenarios(tier):
    return [Scenario("definition-exhaustive-columns", exhaustive), Scenario("definition-shaped-data", shaped),
            Scenario("definition-wide-limits", limits), Scenario("definition-large", large),
            Scenario("accumulation", accumulate), sequences.scenario(["ALE"])]
