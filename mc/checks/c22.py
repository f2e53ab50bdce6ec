"""C22: documented options are accepted and mean what is documented; anything else is refused and changes nothing."""
import numpy as np

import effector.binning_methods as bm
import effector.interaction as inter
from mc import gen
from mc.common import GLOBAL, REGIONAL, make, make_regional, expect, binning, is_ale, is_pdp
from mc.checks.c12 import fit_args, BASE, FIXED2
from mc.engine import Scenario, Skip, Opt
from mc.history import Op, observe, difference, drawn, printed

SHAP = True
N = 34


def data(name):
    i = np.arange(N)     # seventeen values per feature (more than the categorical limit), two instances each
    X = np.stack([(i * 7 % 17) / 4.0, ((i * 11 + i // 17) % 17) / 8.0 - 1.0, ((i * 5 + 3 * (i // 17)) % 17) / 6.0 - 1.0], axis=1)
    return {"x3": X, "x2": X[:, :2], "x1": X[:, :1]}[name]


def grid(X, f):
    lo, hi = X[:, f].min(), X[:, f].max()
    return np.array([lo, lo + 0.3 * (hi - lo), 0.5 * (lo + hi), hi])


def answers(kind, o, X, feats=None, ces=(False, True, "zero_start")):
    out = {}
    for f in feats if feats is not None else range(X.shape[1]):
        for ce in ces:
            r = o.eval(f, grid(X, f), heterogeneity=True, centering=ce)
            expect(isinstance(r, tuple) and len(r) == 2, "eval with heterogeneity returns %s", type(r))
            y = o.eval(f, grid(X, f), centering=ce)
            expect(isinstance(y, np.ndarray) and y.shape == (4,), "eval without heterogeneity returns %s", type(y))
            out[f, str(ce)] = [np.array(r[0], dtype=float), np.array(r[1], dtype=float), y]
    return out


def equal(a, b, what, tol=1e-9):
    d = difference(a, b, tol)
    expect(d is None, "%s: %s", what, d)


# documented values, each with another documented way of saying the same
SAME_BINNING = {"fixed": ("fixed", dict(nof_bins=20, min_points_per_bin=0, cat_limit=15)), "greedy": ("greedy", dict(init_nof_bins=100, min_points_per_bin=0, discount=0.3, cat_limit=15)),
                "dp": ("dp", dict(max_nof_bins=20, min_points_per_bin=0, discount=0.3, cat_limit=15))}


def same_meaning(kind, D):
    """pairs of calls of fit that mean the same"""
    out = [("features=0", lambda o: o.fit(0), lambda o: o.fit([0])), ("features='all'", lambda o: o.fit("all"), lambda o: o.fit(list(range(D)))),
           ("features=reversed", lambda o: o.fit(list(range(D))), lambda o: o.fit(list(reversed(range(D))))), ("features default", lambda o: o.fit(), lambda o: o.fit("all")),
           ("one by one", lambda o: o.fit("all"), lambda o: [o.fit(f) for f in range(D)]),
           ("centering=True", lambda o: o.fit("all", centering=True), lambda o: o.fit("all", centering="zero_integral"))]
    if is_ale(kind):
        names = ["fixed"] if kind == "ALE" else ["fixed", "greedy", "dp"]
        for n in names:
            out.append(("binning %s" % n, lambda o, n=n: o.fit("all", binning_method=n), lambda o, n=n: o.fit("all", binning_method=binning(SAME_BINNING[n]))))
        out.append(("default binning", lambda o: o.fit("all"), lambda o: o.fit("all", binning_method=names[0] if kind == "ALE" else "greedy")))
        defaults = {"fixed": bm.Fixed, "greedy": bm.Greedy, "dp": bm.DynamicProgramming}
        explicit = {"fixed": dict(nof_bins=100, min_points_per_bin=10, cat_limit=15), "greedy": dict(init_nof_bins=100, min_points_per_bin=10, discount=0.3, cat_limit=15),
                    "dp": dict(max_nof_bins=20, min_points_per_bin=10, discount=0.3, cat_limit=15)}
        for n in names:
            if n != "fixed":      # hundred equal bins of ten points each do not exist here
                out.append(("default parameters of %s" % n, lambda o, n=n: o.fit("all", binning_method=defaults[n]()), lambda o, n=n: o.fit("all", binning_method=binning((n, explicit[n])))))
    if is_pdp(kind) or kind == "SHAP":
        out.append(("points_for_centering", lambda o: o.fit("all"), lambda o: o.fit("all", points_for_centering=100)))
    if is_pdp(kind):
        out.append(("use_vectorized", lambda o: o.fit("all", use_vectorized=True), lambda o: o.fit("all", use_vectorized=False)))
        out.append(("centering default", lambda o: o.fit("all"), lambda o: o.fit("all", centering=True)))
    return out


def accepted(c):
    kind = c.pick("method", GLOBAL)
    X = data(c.pick("data", ["x2", "x3", "x1"]))
    D = X.shape[1]
    m = gen.poly(D)
    name, one, two = c.pick("option", [Opt(t[0], t) for t in same_meaning(kind, D)])
    a, b = make(kind, X, m), make(kind, X, m)
    one(a)
    two(b)
    equal(answers(kind, a, X), answers(kind, b, X), name, 1e-7 if not kind.endswith("num") else 2e-5)
    c.op(4)
    c.state(name, kind)


def plots(c):
    kind = c.pick("method", GLOBAL)
    X = data("x2")
    m = gen.poly(2)
    o, p = make(kind, X, m), make(kind, X, m)
    pairs = [("heterogeneity=True", dict(heterogeneity=True), dict(heterogeneity="std")), ("centering=True", dict(centering=True), dict(centering="zero_integral")), ("defaults", {}, dict(heterogeneity=False, centering=False, show_avg_output=False)),
             ("no scaling", {}, dict(scale_x=None, scale_y=None, y_limits=None)), ("unit scaling", {}, dict(scale_x={"mean": 0.0, "std": 1.0}, scale_y={"mean": 0.0, "std": 1.0}))]
    if is_pdp(kind):
        pairs += [("all ICE", dict(heterogeneity="ice"), dict(heterogeneity="ice", nof_ice="all")), ("points", {}, dict(nof_points=30)), ("vectorized", dict(heterogeneity="std_err"), dict(heterogeneity="std_err", use_vectorized=False))]
    if kind == "SHAP":
        pairs += [("all SHAP values", dict(heterogeneity="shap_values"), dict(heterogeneity="shap_values", nof_shap_values="all")), ("points", {}, dict(nof_points=30))]
    if is_ale(kind):
        pairs += [("dy limits", {}, dict(dy_limits=None))]
    name, a, b = c.pick("option", [Opt(t[0], t) for t in pairs])
    f = c.pick("feature", [0, 1])
    equal(drawn(lambda: o.plot(f, **a)), drawn(lambda: p.plot(f, **b)), "plot with " + name, 1e-7 if not kind.endswith("num") else 2e-5)
    c.op(2)
    c.state(name, kind)


def selection(c):
    """fitting some features in one way does not touch the others; every subset and order"""
    kind = c.pick("method", [k for k in GLOBAL if c.tier == "thorough" or k not in ("SHAP", "dPDP-num", "RHALE-num")])
    X = data("x3")
    m = gen.poly(3)
    how = c.pick("fit", [Opt(str(l), l) for l in [[], [0], [1], [2], [0, 1], [1, 0], [0, 2], [2, 0], [1, 2], [2, 1], [2, 1, 0], [1, 2, 0], "all", 0, 1, 2, [0, 0]]])
    kw = dict(binning_method=binning(("fixed", dict(nof_bins=3, min_points_per_bin=0, cat_limit=0)))) if is_ale(kind) else dict(points_for_centering=4)
    o = make(kind, X, m)
    o.fit(how, **kw)
    chosen = [0, 1, 2] if how == "all" else [how] if isinstance(how, int) else how
    for f in range(3):
        fr = make(kind, X, m)
        if f in chosen:
            fr.fit(f, **kw)
        equal(answers(kind, o, X, [f]), answers(kind, fr, X, [f]), "feature %d after fit(%s)" % (f, how))
        c.op(2)
    c.state(how, kind)


# ---------------------------------------------------------------- refusals
def bad_calls(kind, D, X):
    out = []
    for v in ("mean", "zero", "zero_end", "start", "integral", "zero_integral ", "Zero_start", "zero-start", "", "True", None, 1, 0, 2.0, ["zero_start"]):
        out.append(("fit(centering=%r)" % (v,), lambda o, v=v: o.fit(0, centering=v)))
        out.append(("eval(centering=%r)" % (v,), lambda o, v=v: o.eval(0, grid(X, 0), centering=v)))
        out.append(("plot(centering=%r)" % (v,), lambda o, v=v: drawn(lambda: o.plot(0, centering=v))))
    for v in ("quantiles", "", "both", 3):
        out.append(("plot(heterogeneity=%r)" % (v,), lambda o, v=v: drawn(lambda: o.plot(0, heterogeneity=v))))
    for v in ("some", "0", "", None, 1.5, D, D + 3, -1, [D], [0, D], [-1], ["a"], [0, None], {0: 1}):
        out.append(("fit(%r)" % (v,), lambda o, v=v: o.fit(v)))
    for v in (D, D + 3):
        out.append(("eval(feature %d)" % v, lambda o, v=v: o.eval(v, grid(X, 0))))
        out.append(("plot(feature %d)" % v, lambda o, v=v: drawn(lambda: o.plot(v))))
    if is_ale(kind):
        bad = ["quantile", "", None, 10, ["fixed"], object(), bm.Fixed, ("fixed", dict(nof_bins=4, min_points_per_bin=N + 1, cat_limit=0)), ("fixed", dict(nof_bins=24, min_points_per_bin=2, cat_limit=0))]
        if kind == "ALE":
            bad += ["greedy", "dp", ("greedy", dict(init_nof_bins=4)), ("dp", dict(max_nof_bins=4))]
        else:
            bad += [("greedy", dict(init_nof_bins=4, min_points_per_bin=N + 1, cat_limit=0)), ("dp", dict(max_nof_bins=4, min_points_per_bin=N + 1, cat_limit=0))]
        for v in bad:
            w = binning(v) if isinstance(v, tuple) else v
            out.append(("fit(binning_method=%s)" % (str(v) if not isinstance(v, object) or isinstance(v, (str, tuple, list, int, type(None))) else type(v).__name__), lambda o, w=w: o.fit(0, binning_method=w)))
    return out


def refused(c):
    kind = c.pick("method", GLOBAL if c.tier == "thorough" else [k for k in GLOBAL if k not in ("dPDP-num", "RHALE-num")])
    X = data("x2")
    m = gen.poly(2)
    first = c.pick("before", ["nothing", "fit", "eval"])
    calls = bad_calls(kind, 2, X)
    name, call = c.pick("refused", [Opt(t[0], t) for t in calls])
    kw = dict(binning_method=binning(("fixed", dict(nof_bins=3, min_points_per_bin=0, cat_limit=0)))) if is_ale(kind) else dict(points_for_centering=4)
    o, fr = make(kind, X, m), make(kind, X, m)
    for q in (o, fr):
        if first == "fit":
            q.fit("all", **kw)
        elif first == "eval":
            q.eval(0, grid(X, 0), centering=True)
    r = observe(Op(name, call), o)
    c.op(2)
    expect(r[0] == "raises", "%s is accepted", name)
    ces = (False, True) if kind == "SHAP" else (False, True, "zero_start")
    equal(answers(kind, o, X, ces=ces), answers(kind, fr, X, ces=ces), "after the refused " + name, 1e-9)
    c.state(name, r[1], first)


def constructors(c):
    kind = c.pick("method", GLOBAL + ["H-index", "REPID"] + ["regional " + k for k in REGIONAL])
    X = data("x2")
    m = gen.poly(2)

    def build(X=X, **kw):
        if kind == "H-index":
            return inter.HIndex(X, m.f, **kw)
        if kind == "REPID":
            return inter.REPID(X, m.f, None, **kw)
        if kind.startswith("regional"):
            return make_regional(kind[9:], X, m, **kw)
        return make(kind, X, m, **kw)
    bad = [("nof_instances=%r" % (v,), dict(nof_instances=v)) for v in ("some", "", 2.5, None, [3], -1, "10")]
    good = [("nof_instances=%r" % (v,), dict(nof_instances=v)) for v in ("all", N, N + 1, 1000)] + [("nof_instances=10", dict(nof_instances=10))]
    ok = c.pick("documented", [True, False])
    name, kw = c.pick("option", [Opt(t[0], t) for t in (good if ok else bad)])
    c.op()
    if not ok:
        r = observe(Op("", lambda _: build(**kw)), None)
        expect(r[0] == "raises", "%s is accepted", name)
        return c.state(name, r[1])
    o = build(**kw)
    if kind in GLOBAL and kw["nof_instances"] != 10:
        equal(answers(kind, o, X), answers(kind, build(nof_instances="all"), X), name)
        c.op()
    if kind not in GLOBAL and kw["nof_instances"] != 10:
        if kind in ("H-index", "REPID"):
            equal([float(o.eval_one_vs_all(f)) for f in (0, 1)], [float(build(nof_instances="all").eval_one_vs_all(f)) for f in (0, 1)], name)
        elif "SHAP" not in kind:
            equal(report(kind[9:], o, X), report(kind[9:], build(nof_instances="all"), X), name)
    c.state(name)


def flat(c):
    """a feature whose axis has no width cannot be explained, and asking changes nothing for the others"""
    kind = c.pick("method", GLOBAL)
    X = data("x3").copy()
    X[:, 1] = 2.0
    m = gen.poly(3)
    lims = c.pick("axis limits", [None, "reversed"])
    L = None
    if lims:
        X = data("x3")
        L = np.stack([X.min(axis=0), X.max(axis=0)])
        L[:, 1] = L[::-1, 1]
    o = make(kind, X, m, axis_limits=L)
    fr = make(kind, X, m, axis_limits=L)
    before = c.pick("before", [False, True])
    if before:
        answers(kind, o, X, [0])
    call = c.pick("call", [Opt("eval", lambda: o.eval(1, np.array([2.0]))), Opt("eval centered", lambda: o.eval(1, np.array([2.0]), True, True)), Opt("plot", lambda: drawn(lambda: o.plot(1)))])
    r = observe(Op("", lambda _: call()), None)
    expect(r[0] == "raises", "a feature without an axis was explained")
    equal(answers(kind, o, X, [0, 2]), answers(kind, fr, X, [0, 2]), "afterwards")
    c.op(2)
    c.state(r[1])


# ---------------------------------------------------------------- regional
def report(kind, o, X, feats=(0,)):
    out = {}
    for f in feats:
        o.refit(f)
        for name, t in (("full", o.tree_full), ("pruned", o.tree_pruned)):
            out[f, name] = [(n.name, float(n.data["heterogeneity"]), int(n.data["nof_instances"])) for n in t["feature_%d" % f].nodes]
        out[f, "eval"] = [np.array(v, dtype=float) for v in o.eval(f, 0, grid(X, f), True, True)]
    return out


def regional_pairs(kind, D, opts):
    a = dict(opts)
    rest = [1, 2][:D - 1]

    def without(k):
        return {q: v for q, v in a.items() if q != k}
    out = [("features=0", lambda o: o.fit(0, **a), lambda o: o.fit([0], **a)), ("features='all'", lambda o: o.fit("all", **a), lambda o: o.fit(list(range(D)), **a)), ("reversed", lambda o: o.fit("all", **a), lambda o: o.fit(list(reversed(range(D))), **a)),
           ("centering=True", lambda o: o.fit(0, **dict(a, centering=True)), lambda o: o.fit(0, **dict(a, centering="zero_integral"))),
           ("candidates='all'", lambda o: o.fit(0, **dict(a, candidate_conditioning_features="all")), lambda o: o.fit(0, **dict(a, candidate_conditioning_features=rest))),
           ("defaults", lambda o: o.fit(0), lambda o: o.fit(0, heter_pcg_drop_thres=0.1, heter_small_enough=0.1, max_depth=1, nof_candidate_splits_for_numerical=20, min_points_per_subregion=10, candidate_conditioning_features="all",
                                                          split_categorical_features=False, centering=False))]
    if kind.startswith("RHALE"):
        for n, d in (("greedy", bm.Greedy), ("dp", bm.DynamicProgramming)):
            out.append(("binning " + n, lambda o, n=n: o.fit(0, **dict(a, binning_method=n)), lambda o, d=d: o.fit(0, **dict(a, binning_method=d()))))
        out.append(("default binning", lambda o: o.fit(0, **without("binning_method")), lambda o: o.fit(0, **dict(a, binning_method="greedy"))))
    if kind == "ALE":
        out.append(("default binning", lambda o: o.fit(0, **without("binning_method")), lambda o: o.fit(0, **dict(a, binning_method=bm.Fixed(nof_bins=20, min_points_per_bin=0)))))
    return out


def regional_options(kind):
    p = dict(BASE, depth=1, npos=3, minp=4, thres=0.0, small=0.0, foc="all", spec=FIXED2)
    return fit_args(p, kind)


def regional(c):
    kind = c.pick("method", REGIONAL if c.tier == "thorough" else [k for k in REGIONAL if k not in ("RHALE-jac", "dPDP-num")])
    X = data(c.pick("data", ["x3", "x2"]))
    D = X.shape[1]
    m = gen.poly(D)
    name, one, two = c.pick("option", [Opt(t[0], t) for t in regional_pairs(kind, D, regional_options(kind))])
    if kind == "SHAP" and c.tier == "quick" and (D > 2 or name in ("features='all'", "reversed")):
        raise Skip()
    a, b = [make_regional(kind, X, m, nof_instances="all", feature_types=["cont"] * D) for _ in range(2)]
    one(a)
    two(b)
    feats = range(D) if "all" in name and "features" in name or name == "reversed" else (0,)
    equal(report(kind, a, X, feats), report(kind, b, X, feats), name, 1e-7 if not kind.endswith("num") else 2e-5)
    c.op(4)
    c.state(name, kind)


def regional_bad(kind, D, X, a):
    out = []
    for v in ("mean", "zero", "zero_end", "Zero_start", "", None, 1, 2.0):
        out.append(("fit(centering=%r)" % (v,), lambda o, v=v: o.fit(0, **dict(a, centering=v))))
        out.append(("eval(centering=%r)" % (v,), lambda o, v=v: o.eval(0, 0, grid(X, 0), centering=v)))
        out.append(("plot(centering=%r)" % (v,), lambda o, v=v: drawn(lambda: o.plot(0, 0, centering=v))))
    for v in ("some", "", None, 1.5, D, -1, [0, D], [-1], ["a"]):
        out.append(("fit(%r)" % (v,), lambda o, v=v: o.fit(v, **a)))
        out.append(("show_partitioning(%r)" % (v,), lambda o, v=v: printed(lambda: o.show_partitioning(v))))
        out.append(("describe_subregions(%r)" % (v,), lambda o, v=v: printed(lambda: o.describe_subregions(v))))
    for v in (-1, 99, None, "root", 0.5):
        out.append(("eval(node %r)" % (v,), lambda o, v=v: o.eval(0, v, grid(X, 0))))
        out.append(("plot(node %r)" % (v,), lambda o, v=v: drawn(lambda: o.plot(0, v))))
        out.append(("get_node_info(node %r)" % (v,), lambda o, v=v: o.get_node_info(0, v)))
    for v in (1, 0, -3):
        out.append(("fit(min_points_per_subregion=%r)" % v, lambda o, v=v: o.fit(0, **dict(a, min_points_per_subregion=v))))
    for v in ("both", 3):
        out.append(("plot(heterogeneity=%r)" % (v,), lambda o, v=v: drawn(lambda: o.plot(0, 0, heterogeneity=v))))
    if is_ale(kind):
        bad = ["quantile", "", None, 10, bm.Fixed]
        if kind == "ALE":
            bad += ["greedy", "dp", ("greedy", dict(init_nof_bins=4)), ("dp", dict(max_nof_bins=4))]
        for v in bad:
            w = binning(v) if isinstance(v, tuple) else v
            out.append(("fit(binning_method=%s)" % (v,), lambda o, w=w: o.fit(0, **dict(a, binning_method=w))))
    return out


def regional_refused(c):
    kind = c.pick("method", REGIONAL if c.tier == "thorough" else ["PDP", "dPDP-jac", "ALE", "RHALE-eff", "SHAP"])
    X = data("x2")
    m = gen.poly(2)
    a = regional_options(kind)
    name, call = c.pick("refused", [Opt(t[0], t) for t in regional_bad(kind, 2, X, a)])
    first = c.pick("before", ["fit", "nothing"])
    if first == "nothing" and (not name.startswith("fit") or kind == "SHAP"):
        raise Skip()
    o, fr = [make_regional(kind, X, m, nof_instances="all", feature_types=["cont"] * 2) for _ in range(2)]
    for q in (o, fr):
        if first == "fit":
            q.fit(0, **dict(a, nof_candidate_splits_for_numerical=2))
    r = observe(Op(name, call), o)
    c.op(2)
    expect(r[0] == "raises", "%s is accepted", name)
    equal(report(kind, o, X), report(kind, fr, X), "after the refused " + name)
    c.state(name, r[1], first)


def measures(c):
    """interaction scores: feature selections"""
    X = data("x3")
    m = gen.poly(3)
    what = c.pick("measure", ["REPID", "H-index"])
    good = c.pick("documented", [True, False])
    if what == "H-index":
        if not good:
            raise Skip()
        h = inter.HIndex(X, m.f, nof_instances="all")
        h.fit(pairwise_matrix=c.pick("pairs", [True, False]), one_vs_all=c.pick("rest", [True, False]))
        fr = inter.HIndex(X, m.f, nof_instances="all")
        equal([float(h.eval_one_vs_all(i)) for i in range(3)] + [float(h.eval_pairwise(i, j)) for i in range(3) for j in range(3)],
              [float(fr.eval_one_vs_all(i)) for i in range(3)] + [float(fr.eval_pairwise(i, j)) for i in range(3) for j in range(3)], "H-index after fit")
    else:
        r, fr = inter.REPID(X, m.f, None, "all"), inter.REPID(X, m.f, None, "all")
        v = c.pick("features", [Opt(str(v), v) for v in (["all", 0, [0], [2, 1]] if good else ["some", "", None, 1.5, 3, [0, 3], -1])])
        q = observe(Op("", lambda o: o.fit(v)), r)
        expect((q[0] == "ok") == good, "fit(%r): %s", v, q)
        equal([float(r.eval_one_vs_all(i)) for i in range(3)], [float(fr.eval_one_vs_all(i)) for i in range(3)], "REPID after fit(%r)" % (v,))
    c.op(3)
    c.state(what)


# ---------------------------------------------------------------- what is left out
BIN_DEFAULTS = {"fixed": (bm.Fixed, dict(nof_bins=100, min_points_per_bin=10, cat_limit=15)), "greedy": (bm.Greedy, dict(init_nof_bins=100, min_points_per_bin=10, discount=0.3, cat_limit=15)),
                "dp": (bm.DynamicProgramming, dict(max_nof_bins=20, min_points_per_bin=10, discount=0.3, cat_limit=15))}


def default_bins(c):
    """every parameter of a binning object left out, on columns whose size or number of values is next to the default"""
    n = c.pick("binning", ["fixed", "greedy", "dp"])
    cls, full = BIN_DEFAULTS[n]
    left = c.pick("left out", list(full) + ["everything"])
    N, values = c.pick("instances, values", [(q, q) for q in (9, 10, 11, 19, 20, 21, 40)] + [(45, q) for q in (13, 14, 15, 16, 17)] + [(q * 10, q) for q in (14, 15, 16)] + [(150, 15), (149, 15), (151, 15), (2000, 2000), (1010, 1010), (400, 400)])
    if n == "dp" and N > 400:
        raise Skip()
    i = np.arange(N)
    x = (i % values) * 1.0
    X = np.stack([x, np.cos(5 * i)], axis=1)
    E = np.stack([np.where(x > values / 3, 1.0, 3.0) * np.sin(i * i) + (x > values * 0.7) * 2, x], axis=1)
    L = np.stack([X.min(axis=0), X.max(axis=0)])
    small = {"nof_bins": 4, "init_nof_bins": 7, "max_nof_bins": 5, "min_points_per_bin": 2, "discount": 0.9, "cat_limit": 3}
    for other in ({}, small):        # next to the defaults, and next to other values of the other parameters
        args = {k: other.get(k, v) for k, v in full.items()}
        if left == "everything":
            a, b = cls(), cls(**full)
        else:
            a, b = cls(**{k: v for k, v in args.items() if k != left}), cls(**dict(args, **{left: full[left]}))
        got, want = [bm.find_limits(X, E, 0, L, q).limits for q in (a, b)]
        expect((got is False) == (want is False), "%s left out: %s, with the documented default %s", left, got, want)
        if want is not False:
            equal(np.array(got, float), np.array(want, float), "%s left out" % left)
        c.op(2)
        c.state(left, got)


DEFAULT_ROWS = {"PDP": 300, "dPDP-jac": 300, "dPDP-num": 300, "ALE": None, "RHALE-eff": None, "RHALE-jac": None, "RHALE-num": None, "SHAP": 100}
DEFAULT_REGIONAL = {"PDP": 1000, "dPDP-jac": 1000, "dPDP-num": 1000, "ALE": None, "RHALE-eff": None, "RHALE-jac": None, "RHALE-num": None, "SHAP": 100}


def default_rows(c):
    """number of instances used when nothing is said"""
    what = c.pick("class", ["global " + k for k in GLOBAL] + ["regional " + k for k in REGIONAL] + ["H-index"])
    N = c.pick("rows", [99, 100, 101, 299, 300, 301, 999, 1000, 1001, 1500])
    i = np.arange(N)
    X = np.stack([i * 1.0, np.cos(5 * i)], axis=1)
    m = gen.poly(2)
    kind = what.split()[-1]
    if what == "H-index":
        got, want = inter.HIndex(X, m.f), 1000
    else:
        got = (make if what.startswith("global") else make_regional)(kind, X, m)
        want = (DEFAULT_ROWS if what.startswith("global") else DEFAULT_REGIONAL)[kind]
    got = getattr(got, "data", None)        # the instances in use
    if got is None:
        raise Skip()
    want = N if want is None else min(N, want)
    expect(got.shape == (want, 2), "%d of %d instances are used, documented %d", len(got), N, want)
    expect(len(set(got[:, 0])) == want, "instances are used twice")
    c.op()
    c.state(what, N)


REGION_DEFAULTS = dict(heter_pcg_drop_thres=0.1, heter_small_enough=0.1, max_depth=1, nof_candidate_splits_for_numerical=20, min_points_per_subregion=10, candidate_conditioning_features="all", split_categorical_features=False, centering=False)


def default_regions(c):
    """every option of a regional fit left out, on data next to what it decides about"""
    kind = c.pick("method", ["PDP", "RHALE-eff", "dPDP-jac", "ALE"] + (["RHALE-jac", "SHAP"] if c.tier == "thorough" else []))
    about = c.pick("about", ["size", "drop", "small", "types"])
    i = np.arange(60)
    x0, x2 = np.sin(3 * i), (i * 7 % 12) * 1.0
    other = {}
    if about == "size":
        n = c.pick("instances", [18, 19, 20, 21, 22, 24])
        x1, w, noise, scale = np.where(i % 2 > 0, 1.0, 0.0), 3.0, 0.0, 1.0
        i, x0, x1, x2 = i[:n], x0[:n], x1[:n], x2[:n] + 0.25 * i[:n]
        left = ["min_points_per_subregion", None]
    elif about == "drop":
        w, noise, scale = c.pick("weight", [q / 40 for q in range(80)]), 1.0, 20.0
        x1 = np.where(i % 2 > 0, 1.0, 0.0)
        left = ["heter_pcg_drop_thres", None]
    elif about == "small":
        scale = c.pick("scale", [0.01, 0.02, 0.04, 0.05, 0.06, 0.07, 0.08, 0.09, 0.1, 0.12, 0.15, 0.2, 0.4, 1.0])
        x1, w, noise = np.where(i % 2 > 0, 1.0, 0.0), 1.0, 0.0
        left = ["heter_small_enough", None]
    else:
        n = c.pick("distinct values", [8, 9, 10, 11, 12])
        x1, w, noise, scale = (i % n) * 1.0, 2.0, 0.0, 5.0
        left = ["nof_candidate_splits_for_numerical", "split_categorical_features", "max_depth", "candidate_conditioning_features", "centering", None]
        if c.pick("other options", [False, True]):
            other = dict(split_categorical_features=True, heter_pcg_drop_thres=0.0, heter_small_enough=0.0, max_depth=2, min_points_per_subregion=2)
    X = np.stack([x0, x1, x2], axis=1)
    k = c.pick("left out", left)
    t = np.median(x1)
    g = lambda Z: scale * (w * np.where(Z[:, 1] > t, 1.0, -1.0) + noise * np.sin(40 * Z[:, 2]))
    m = gen.Model("m", lambda Z: Z[:, 0] * g(Z), lambda Z: np.stack([g(Z), 0 * Z[:, 0], Z[:, 0] * scale * noise * 40 * np.cos(40 * Z[:, 2])], axis=1))
    full = dict(REGION_DEFAULTS, **other)
    if is_ale(kind):
        full["binning_method"] = bm.Fixed(nof_bins=3, min_points_per_bin=0, cat_limit=0)
    a, b = make_regional(kind, X, m), make_regional(kind, X, m, nof_instances="all", cat_limit=10)
    if k is None:
        a.fit(0, **({q: v for q, v in full.items() if q not in REGION_DEFAULTS or q in other}))
        b.fit(0, **full)
    else:
        a.fit(0, **{q: v for q, v in full.items() if q != k})
        b.fit(0, **dict(full, **{k: REGION_DEFAULTS[k]}))
    got, want = report(kind, a, X[:, :3]), report(kind, b, X)
    equal(got, want, "%s left out" % (k or "everything"))
    c.op(4)
    c.state(kind, about, got[0, "pruned"])


BOUNDS = ("8 global methods x 3 data sets x every pair of equivalent option values; every plot option; every subset and order of features; about 40-60 undocumented or impossible requests per method after 3 histories, "
          "followed by all evaluations; every option left out where its default decides (sizes, numbers of values, drops and heterogeneities next to the default); constructors of 18 classes; 8 regional methods likewise; interaction measures")
ASSUMPTIONS = ["for global effects the binning names stand for no minimum number of points, for regional effects for the default objects (that is how the library documents its defaults in code)",
               "a value documented for one kind of plot may be accepted, too, by another kind"]


def scenarios(tier):
    return [Scenario("same-meaning", accepted), Scenario("plots", plots), Scenario("selection", selection), Scenario("refused", refused), Scenario("constructors", constructors), Scenario("no-axis", flat),
            Scenario("regional", regional), Scenario("regional-refused", regional_refused), Scenario("measures", measures),
            Scenario("default-bins", default_bins), Scenario("default-rows", default_rows), Scenario("default-regions", default_regions)]
