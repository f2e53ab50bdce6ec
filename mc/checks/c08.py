"""C08: global effects do not remember earlier calls."""
import itertools

import numpy as np

from mc import gen
from mc.common import GLOBAL, make, binning, is_ale, is_pdp, expect
from mc.engine import Scenario, Opt
from mc.history import Op, search, drawn, observe, difference

SHAP = True

FITS = {
    "PDP": [dict(points_for_centering=5), dict(points_for_centering=11, use_vectorized=False)],
    "SHAP": [dict(points_for_centering=4), dict(points_for_centering=9)],
    "ALE": [dict(binning_method=("fixed", dict(nof_bins=3, min_points_per_bin=0, cat_limit=0))), dict(binning_method="fixed")],
    "RHALE": [dict(binning_method=("fixed", dict(nof_bins=3, min_points_per_bin=0, cat_limit=0))), dict(binning_method="dp"),
              dict(binning_method=("greedy", dict(init_nof_bins=6, min_points_per_bin=2, discount=0.1, cat_limit=0)))],
}


def fits_of(kind):
    return FITS["PDP" if is_pdp(kind) else "SHAP" if kind == "SHAP" else "ALE" if kind == "ALE" else "RHALE"]


def dataset(name):
    i = np.arange(16)
    X = np.stack([(i * 5 % 8) / 4.0, (i * 3 % 8) / 4.0 - 1.0, np.cos(i * 1.0)], axis=1)
    if name == "16x2":
        return X[:, :2]
    if name == "16x3":
        return X
    if name == "16x2 other":
        return X[:, 1:] * 2 + 1
    raise KeyError(name)


def real(kw):
    return {k: (binning(v) if k == "binning_method" else v) for k, v in kw.items()}


def fit_op(kind, feat, j, centering):
    """feat: index or 'all'"""
    kw = fits_of(kind)[j]
    name = "fit(%s,#%d,%s)" % (feat, j, centering)

    def spec(s):
        return tuple(j if feat == "all" or f == feat else s[f] for f in range(len(s)))
    return Op(name, lambda o: o.fit(feat, **dict(real(kw), **({} if centering is None else {"centering": centering}))), spec=spec, query=False)


def last_fit(kind, f):
    return lambda s: [] if s[f] is None else [fit_op(kind, f, s[f], None)]


def queries(kind, f, X, tier, plots=True):
    lo, hi = X[:, f].min(), X[:, f].max()
    xs = np.array([lo, 0.5 * (lo + hi), hi, lo + 0.3 * (hi - lo)])
    out = []
    for ce in (False, True, "zero_start"):
        if is_pdp(kind):
            out.append(Op("eval(%d,all,%s)" % (f, ce), lambda o, ce=ce: o.eval(f, xs, centering=ce, return_all=True), setup=last_fit(kind, f)))
        else:
            out.append(Op("eval(%d,heter,%s)" % (f, ce), lambda o, ce=ce: o.eval(f, xs, True, ce), setup=last_fit(kind, f)))
    if plots:
        het = "ice" if is_pdp(kind) else "shap_values" if kind == "SHAP" else True
        out.append(Op("plot(%d,heter,zero_integral)" % f, lambda o: drawn(lambda: o.plot(f, heterogeneity=het, centering="zero_integral", show_avg_output=True)),
                      setup=last_fit(kind, f)))
        out.append(Op("plot(%d)" % f, lambda o: drawn(lambda: o.plot(f, scale_x={"mean": 1.0, "std": 2.0}, scale_y={"mean": -1.0, "std": 3.0})),
                      setup=last_fit(kind, f)))
    return out


def refused(kind, f):
    """calls that must fail and change nothing"""
    if is_ale(kind):
        bad = ("fixed", dict(nof_bins=8, min_points_per_bin=50, cat_limit=0))
        return [Op("fit(%d,impossible)" % f, lambda o: o.fit(f, binning_method=binning(bad))),
                Op("fit(%d,unknown)" % f, lambda o: o.fit(f, binning_method="quantile"))]
    return [Op("fit(%d,bad centering)" % f, lambda o: o.fit(f, centering="mean"))]


def histories(c):
    """closure of the state space of one object"""
    kind = c.pick("method", GLOBAL)
    dn = c.pick("data", ["16x2", "16x3"] if c.tier == "thorough" else ["16x2"])
    lims = c.pick("axis limits", ["data", "cut"] if c.tier == "thorough" or kind in ("PDP", "RHALE-eff") else ["data"])
    X = dataset(dn)
    m = gen.poly(X.shape[1])
    kw = {}
    if lims == "cut":
        L = np.stack([X.min(axis=0), X.max(axis=0)])
        L[0, 0] += 0.25
        L[1, 1] -= 0.25
        kw["axis_limits"] = L
        build = lambda: make(kind, X, m, axis_limits=L.copy())
    else:
        build = lambda: make(kind, X, m)
    ops = []
    for f in range(2):
        for j in range(len(fits_of(kind))):
            for ce in ([False, "zero_start"] if j == 0 else [True]):
                ops.append(fit_op(kind, f, j, ce))
        ops += queries(kind, f, X, c.tier)
        ops += refused(kind, f)
    ops.append(fit_op(kind, "all", 1, None))
    if X.shape[1] > 2:
        ops += queries(kind, 2, X, c.tier, plots=False)
    closed, deep, n = search(c, build, ops, (None,) * X.shape[1], depth=8 if c.tier == "thorough" else 6, tol=1e-5 if kind.endswith("num") else 1e-7, seconds=200 if c.tier != "thorough" else 5400)
    c.state(closed, deep, n)


MEMO = {}       # answers of fresh objects, per worker process


def two_objects(c):
    """nothing leaks between objects: every sequence of calls on two objects of the same class and shape"""
    kind = c.pick("method", GLOBAL if c.tier == "thorough" else ["PDP", "ALE", "RHALE-eff", "SHAP"])
    X = [dataset("16x2"), dataset("16x2 other")]
    m = [gen.poly(2), gen.prod(2)]
    ops = []
    for w in (0, 1):
        for f in (0, 1):
            qs = queries(kind, f, X[w], c.tier, plots=False)
            ops += [(w, q) for q in (qs if c.tier == "thorough" else qs[1:] if f == 0 else qs[1:2])]
            ops.append((w, fit_op(kind, f, 0, True)))
        ops.append((w, fit_op(kind, "all", 1, False)))
    o = [make(kind, X[0], m[0]), make(kind, X[1], m[1])]
    spec = [(None, None), (None, None)]
    depth = 4 if c.tier == "thorough" else 2 if kind == "SHAP" else 3
    for k in range(depth):
        w, op = c.pick("call %d" % k, [Opt("obj%d.%s" % (w, op.name), (w, op)) for w, op in ops])
        got = observe(op, o[w])
        c.op()
        if op.query:
            key = (kind, w, spec[w], op.name)
            if key not in MEMO:
                fr = make(kind, X[w], m[w])
                for s in op.setup(spec[w]):
                    s.run(fr)
                MEMO[key] = observe(op, fr)
            d = difference(got, MEMO[key], 1e-5 if kind.endswith("num") else 1e-7)
            expect(d is None, "call %d (%s on object %d): %s", k, op.name, w, d)
        else:
            expect(got[0] == "ok", "%s raises %s", op.name, got[1])
            spec[w] = op.spec(spec[w])
    c.state(spec)


BOUNDS = ("per method: closure (or depth 6; thorough 8) of the state space of one object under fits with 2-3 option sets, refused fits, evaluations in three "
          "centerings and plots, over two features (thorough: three) and two axis limits; all sequences of 3 (SHAP: 2; thorough: 4) calls over two objects")
ASSUMPTIONS = ["two objects whose attributes are equal (to 9 digits) behave equally, apart from process-wide state (covered by the two-object sequences)"]


def scenarios(tier):
    return [Scenario("one-object-closure", histories, timeout=7200 if tier == "thorough" else 500), Scenario("two-objects", two_objects)]
