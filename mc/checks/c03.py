"""C03: RHALE definition."""
import numpy as np

import effector.binning_methods as bm

from mc import gen, ref, sequences
from mc.common import make, same, expect, effector, binning
from mc.engine import Scenario, Skip
from mc.checks.c02 import positions

SPECS = [("fixed", dict(nof_bins=3, min_points_per_bin=0, cat_limit=0)),
         ("fixed", dict(nof_bins=1, min_points_per_bin=0, cat_limit=0)),
         ("fixed", dict(nof_bins=8, min_points_per_bin=0, cat_limit=3)),
         ("greedy", dict(init_nof_bins=4, min_points_per_bin=1, discount=0.25, cat_limit=0)),
         ("greedy", dict(init_nof_bins=8, min_points_per_bin=2, discount=0.0, cat_limit=0)),
         ("dp", dict(max_nof_bins=4, min_points_per_bin=1, discount=0.25, cat_limit=0)),
         ("dp", dict(max_nof_bins=3, min_points_per_bin=2, discount=0.0, cat_limit=2))]


def edges_of(spec, X, eff, feat, lims):
    """bins the requested method chooses (their own correctness is C06/C07's business); None = refused"""
    sel = ref.inside(X, lims, feat)
    e = bm.find_limits(X[sel].copy(), eff[sel].copy(), feat, lims.copy(), binning(spec)).limits
    return None if e is False or e is None else np.asarray(e, float)


def _check(c, obj, X, eff, feat, spec, lims, tol):
    if not isinstance(spec, str) and spec[0] == "fixed":
        p = spec[1]
        sel = ref.inside(X, lims, feat)
        edges = ref.fixed_edges(X[sel, feat], lims[0, feat], lims[1, feat], p["nof_bins"], p["min_points_per_bin"], p["cat_limit"])
    else:
        edges = edges_of(spec, X, eff, feat, lims)
    if edges is None:
        raise Skip()
    sel = ref.inside(X, lims, feat)
    R = ref.AleRef(X[sel, feat], eff[sel, feat], edges, lims[0, feat], lims[1, feat])
    if not R.defined():
        raise Skip()
    obj.fit(feat, binning_method=binning(spec))
    xs = positions(lims[0, feat], lims[1, feat], edges)
    y = obj.eval(feat, xs)
    same(y, R.eval(xs), "RHALE curve", tol)
    y2, h = obj.eval(feat, xs, heterogeneity=True)
    same(y2, R.eval(xs), "RHALE curve (with heterogeneity)", tol)
    same(h, R.heter(xs), "RHALE heterogeneity", max(10 * tol, 1e-9))
    c.op(3)
    c.state(y, h)


def _effects(source, X, m):
    if source == "own":
        # effects that no Jacobian produces: a different value for every (instance, feature)
        N, D = X.shape
        return np.array([[((7 * i + 3 * d) % 11) / 4.0 - (i % 3) * 0.5 for d in range(D)] for i in range(N)])
    return m.jac(X)


def _make(source, X, m, eff, **kw):
    if source == "own":
        return effector.RHALE(X, m.f, m.jac, data_effect=eff.copy(), **kw)
    if source == "given":
        return effector.RHALE(X, m.f, None, data_effect=eff.copy(), **kw)
    return make("RHALE-jac" if source == "jac" else "RHALE-num", X, m, **kw)


def exhaustive(c):
    n = 5 if c.tier == "thorough" else 4
    source = c.pick("effects", ["jac", "own", "num"])
    D = c.pick("features", [2, 1])
    feat = c.pick("feature", list(range(D)))
    col = c.pick("column", gen.columns([0.0, 0.5, 1.0, 2.0], n))
    if len(set(col)) == 1:
        raise Skip()
    spec = c.pick("binning", SPECS)
    X = gen.with_column(col, D, feat)
    m = gen.poly(D)
    eff = _effects(source, X, m)
    if source == "num" and spec[0] == "dp":
        raise Skip()     # near-ties between partitions could be broken differently
    if source == "num" and spec[0] == "greedy":
        raise Skip()
    _check(c, _make(source, X, m, eff), X, eff, feat, spec, ref.limits_of(X), 1e-5 if source == "num" else 1e-10)


def shaped(c):
    i = np.arange(40)
    wide = gen.Data("40x3 continuous", np.stack([(i * 7 % 40) / 16.0, np.cos(i * 1.0), np.sin(i * 2.0)], axis=1))
    far = gen.Data("40x3 values beyond 1e9", wide.X * 2.0 ** 31)
    tiny = gen.Data("40x3 range 1e-6", wide.X * 2.0 ** -20)
    uneven = gen.Data("40x2 uneven integers", np.stack([np.array([1., 2, 5, 9, 17])[i % 5], (i % 3) - 1.0], axis=1))
    d = c.pick("data", [wide, far, tiny, uneven] + gen.small_sets())
    X = d.X
    D = X.shape[1]
    feat = c.pick("feature", list(range(D)))
    source = c.pick("effects", ["own", "given", "jac"])
    spec = c.pick("binning", ["greedy", "fixed", "dp",
                              ("greedy", dict(init_nof_bins=16, min_points_per_bin=3, discount=0.3, cat_limit=4)),
                              ("dp", dict(max_nof_bins=6, min_points_per_bin=3, discount=0.3, cat_limit=4)),
                              ("fixed", dict(nof_bins=5, min_points_per_bin=2, cat_limit=4))])
    m = c.pick("model", [gen.poly, gen.additive])(D)
    eff = _effects(source, X, m)
    obj = _make(source, X, m, eff)
    if X[:, feat].min() == X[:, feat].max():
        raise Skip()
    if spec == "fixed":
        spec = ("fixed", dict(nof_bins=20, min_points_per_bin=0, cat_limit=15))
    _check(c, obj, X, eff, feat, spec, ref.limits_of(X), 1e-10)


def large(c):
    """more instances, bins and features than any internal block would hold"""
    N, D, K = c.pick("N, D, bins", [(33, 3, 300), (257, 3, 64), (1031, 3, 20), (1031, 17, 33), (2503, 2, 101), (5003, 3, 7), (20011, 2, 20)])
    i = np.arange(N)
    X = np.stack([(i * 7919 % N) // 3 / 32.0] + [((i * (2 * d + 3)) % 61) / 16.0 - 1 for d in range(1, D)], axis=1)
    feat = c.pick("feature", sorted({0, 1, D - 1}) if N < 5000 else [0])
    source = c.pick("effects", ["jac", "given", "num"])
    m = gen.poly(D)
    eff = m.jac(X)
    cat = c.pick("cat limit", [0, 15] if N < 5000 else [0])
    _check(c, _make(source, X, m, eff), X, eff, feat, ("fixed", dict(nof_bins=K, min_points_per_bin=0, cat_limit=cat)),
           ref.limits_of(X), 1e-4 if source == "num" else 1e-9)


def numerical(c):
    """the numerical Jacobian of every feature at every instance"""
    from effector import utils
    d = c.pick("data", gen.small_sets())
    X = d.X
    D = X.shape[1]
    m = c.pick("model", [gen.poly, gen.prod, gen.lin, gen.additive])(D)
    got = utils.compute_jacobian_numerically(m.f, X.copy())
    same(got, m.jac(X), "numerical Jacobian", 1e-5)
    feat = c.pick("feature", list(range(D)))
    if X[:, feat].min() == X[:, feat].max():
        raise Skip()
    spec = c.pick("binning", [SPECS[0], SPECS[1], ("fixed", dict(nof_bins=4, min_points_per_bin=0, cat_limit=9))])
    _check(c, make("RHALE-num", X, m), X, m.jac(X), feat, spec, ref.limits_of(X), 1e-5)


BOUNDS = ("every sequence of 1-3 (5) evaluation positions over 4 values for every method and centering; all 4-instance columns over {0,.5,1,2} (thorough: 5) x feature position x 3 derivative sources x 7 binning options; "
          "13 shaped data sets (up to 40 instances, values up to 2^31 and down to 2^-20) x 3 sources x 6 binning options x 2 models; up to 20011 instances, 17 features and 300 bins")
ASSUMPTIONS = ["bins of the greedy and dynamic-programming methods are taken from the public bin finder (decided by C06/C07)",
               "curves are compared only where some bin holds two instances"]


def scenarios(tier):
    return [Scenario("definition-exhaustive-columns", exhaustive), Scenario("definition-shaped-data", shaped),
            Scenario("numerical-derivatives", numerical), Scenario("definition-large", large),
            sequences.scenario(["RHALE-eff", "RHALE-jac", "RHALE-num"])]
