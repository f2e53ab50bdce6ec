"""C05: centering."""
import numpy as np

from mc import gen
from mc.common import GLOBAL, CENTERINGS, make, same, expect, binning, is_ale, is_pdp
from mc.engine import Scenario, Skip

SHAP = True

BINNINGS = {"ALE": ["fixed", ("fixed", dict(nof_bins=5, min_points_per_bin=0, cat_limit=0))],
            "RHALE": [("fixed", dict(nof_bins=4, min_points_per_bin=0, cat_limit=0)),
                      ("greedy", dict(init_nof_bins=8, min_points_per_bin=2, discount=0.25, cat_limit=0)),
                      ("dp", dict(max_nof_bins=4, min_points_per_bin=2, discount=0.25, cat_limit=0))]}


def sets():
    i = np.arange(24)
    return [gen.Data("12x2", np.stack([(i[:12] * 5 % 12) / 4.0, np.cos(i[:12] * 1.0)], axis=1)),
            gen.Data("24x3", np.stack([(i * 7 % 24) / 8.0 - 5, np.cos(i * 1.0), np.sin(i * 2.0) * 50], axis=1)),
            gen.Data("10x1", ((i[:10] * 3 % 10) / 4.0 + 2)[:, None]),
            gen.Data("8x2 small units", np.stack([(i[:8] * 3 % 8) * 1e-5, (i[:8] * 5 % 8) + 100.0], axis=1))]


def fit_options(kind, tier):
    out = [None]
    if is_ale(kind):
        return [None] + BINNINGS["ALE" if kind == "ALE" else "RHALE"]
    if is_pdp(kind) or kind == "SHAP":
        return [None, 7, "all", 2]
    return out


def pre_fit(c, obj, kind, feat, opt, cfit):
    if cfit == "no fit":
        if opt is not None:
            raise Skip()
        return
    kw = {}
    if opt is not None:
        kw = {"binning_method": binning(opt)} if is_ale(kind) else {"points_for_centering": opt}
    if cfit != "default":
        kw["centering"] = cfit
    obj.fit(feat, **kw)
    c.op()


def constant(kind, obj, X, feat, lims, opt, centering):
    """the amount that must be subtracted, from the UNCENTRED curves of a separate object"""
    lo, hi = lims[:, feat]
    ev = (lambda x: obj.eval(feat, x, return_all=True)) if is_pdp(kind) else (lambda x: obj.eval(feat, x))
    if centering == "zero_start":
        return ev(np.array([lo]))[0]
    n = 100 if opt is None or is_ale(kind) else opt
    inside = X[(X[:, feat] >= lo) & (X[:, feat] <= hi), feat]
    if is_pdp(kind):
        return ev(inside if n == "all" else np.linspace(lo, hi, n)).mean(axis=0)
    if kind == "SHAP":
        x = np.sort(inside) if n == "all" else np.linspace(lo, hi, n)
        y = ev(x)
        return np.sum((y[1:] + y[:-1]) / 2 * np.diff(x)) / (x[-1] - x[0])
    x = np.linspace(lo, hi, n)
    return ev((x[1:] + x[:-1]) / 2).mean()


def check_centered(c, kind, obj, fresh, X, feat, lims, opt, centering, tol):
    lo, hi = lims[:, feat]
    xs = np.concatenate([np.linspace(lo, hi, 7), [hi, lo, 0.25 * lo + 0.75 * hi]])
    k = 0.0 if centering is False else constant(kind, fresh, X, feat, lims, opt, "zero_start" if centering == "zero_start" else "zero_integral")
    base = fresh.eval(feat, xs, return_all=True) if is_pdp(kind) else fresh.eval(feat, xs)
    want = base - k
    y = obj.eval(feat, xs, centering=centering)
    same(y, want.mean(axis=1) if is_pdp(kind) else want, "centred curve", tol)
    y2, h = obj.eval(feat, xs, heterogeneity=True, centering=centering)
    same(y2, y, "centred curve (with heterogeneity)", tol)
    if is_pdp(kind):
        same(obj.eval(feat, xs, centering=centering, return_all=True), want, "centred individual curves", tol)
        same(h, want.std(axis=1), "heterogeneity of the centred curves", max(tol, 1e-8))
    else:
        same(h, fresh.eval(feat, xs, heterogeneity=True)[1], "heterogeneity (must not depend on centering)", tol)
    c.op(3)
    if centering == "zero_start":
        z = obj.eval(feat, np.array([lo]), centering=centering, **({"return_all": True} if is_pdp(kind) else {}))
        same(z, np.zeros(np.shape(z)), "curve at the start of the axis", max(tol if kind != "RHALE-num" else 1e-8, 1e-7 * (1 + np.max(np.abs(base)))))
    c.state(y, h)


def definition(c):
    kind = c.pick("method", GLOBAL)
    d = c.pick("data", sets())
    X = d.X
    D = X.shape[1]
    m = c.pick("model", [gen.poly, gen.prod])(D)
    feat = c.pick("feature", list(range(D)))
    lname = c.pick("axis limits", ["data", "wider"] if not is_ale(kind) or kind == "ALE" else ["data", "wider"])
    opt = c.pick("fit option", fit_options(kind, c.tier))
    cfit = c.pick("centering at fit", ["no fit", "default", False, True, "zero_start", "zero_integral"])
    ceval = c.pick("centering at eval", CENTERINGS)
    if kind == "dPDP-num" and "units" in d.mc_name:
        raise Skip()
    lims = np.stack([X.min(axis=0), X.max(axis=0)])
    kw = {}
    if lname == "wider":
        w = lims[1] - lims[0]
        lims = np.stack([lims[0] - 0.25 * w, lims[1] + 0.125 * w])
        kw = {"axis_limits": lims.copy()}
    try:
        fresh = make(kind, X, m, **kw)
        if opt is not None and is_ale(kind):
            fresh.fit(feat, binning_method=binning(opt), centering=False)
        fresh.eval(feat, lims[0, feat:feat + 1])
    except (AssertionError, ValueError):
        if not is_ale(kind):
            raise
        raise Skip()            # this binning is impossible here (C06), or no bin holds two instances
    obj = make(kind, X, m, **kw)
    pre_fit(c, obj, kind, feat, opt, cfit)
    check_centered(c, kind, obj, fresh, X, feat, lims, opt, ceval, 1e-4 if kind.endswith("num") else 1e-8)


def sequences(c):
    """centred evaluations of several features, one after the other, from one object"""
    kind = c.pick("method", GLOBAL)
    d = sets()[1]
    X, D = d.X, 3
    m = gen.poly(D)
    obj, fresh = make(kind, X, m), make(kind, X, m)
    lims = np.stack([X.min(axis=0), X.max(axis=0)])
    opt = None
    if is_ale(kind):
        opt = BINNINGS["ALE" if kind == "ALE" else "RHALE"][0 if kind != "ALE" else 1]
        fresh.fit("all", binning_method=binning(opt), centering=False)
        obj.fit("all", binning_method=binning(opt))
    last = None
    for k in range(4 if c.tier == "thorough" else 3):
        f = c.pick("step %d feature" % k, [0, 1, 2])
        ce = c.pick("step %d centering" % k, ["zero_integral", False, "zero_start"])
        check_centered(c, kind, obj, fresh, X, f, lims, opt, ce, 1e-4 if kind.endswith("num") else 1e-8)


BOUNDS = ("8 methods x 4 data sets x 2 models x feature x {data, wider} limits x binning / points_for_centering options x 6 centerings at "
          "fit x 4 at evaluation; all sequences of 3 (thorough: 4) centred evaluations over 3 features and 3 centerings from one object")
ASSUMPTIONS = ["uncentred curves (decided by C01-C04) are the reference the constant is computed from",
               "zero_integral is discretised as documented: points_for_centering equally spaced points (100 by default)"]


def scenarios(tier):
    return [Scenario("definition", definition), Scenario("sequences", sequences)]
