"""C16: symmetries.  Every case is a pair of executions of the real library: a problem and the same problem told differently."""
import itertools

import numpy as np

import effector.binning_methods as bm
import effector.interaction as inter
from mc import gen
from mc.common import GLOBAL, REGIONAL, make, make_regional, expect, same, binning, is_ale, is_pdp
from mc.checks.c07 import admissible
from mc.checks.c12 import fit_args, BASE, FIXED2, GREEDY, DP
from mc.engine import Scenario, Skip, Opt, Violation
from mc.history import Op, observe

SHAP = True


class Told:
    """the same problem told differently: rows, columns, units and output"""

    def __init__(self, name, rows=None, cols=None, a=None, b=None, scale=1.0, shift=0.0):
        self.mc_name, self.rows, self.cols, self.a, self.b, self.scale, self.shift = name, rows, cols, a, b, scale, shift

    def __repr__(self):
        return self.mc_name

    def setup(self, N, D):
        self.R = np.arange(N) if self.rows is None else np.array(self.rows)
        self.C = np.arange(D) if self.cols is None else np.array(self.cols)      # new column k is old column C[k]
        self.A = np.ones(D) if self.a is None else np.array(self.a, dtype=float)  # indexed by old column
        self.B = np.zeros(D) if self.b is None else np.array(self.b, dtype=float)
        return self

    def data(self, X):
        return (X * self.A + self.B)[self.R][:, self.C]

    def back(self, Z):
        out = np.empty(Z.shape)
        out[:, self.C] = Z
        return (out - self.B) / self.A

    def effects(self, E):
        return (self.scale * E / self.A)[self.R][:, self.C]

    def model(self, m):
        def f(Z):
            return self.scale * m._f(self.back(Z)) + self.shift

        def jac(Z):
            return (self.scale * m._jac(self.back(Z)) / self.A)[:, self.C]
        return gen.Model(m.mc_name + " " + self.mc_name, f, jac)

    def feature(self, f):
        return int(np.where(self.C == f)[0][0])

    def at(self, xs, f):
        return xs * self.A[f] + self.B[f]


def curves(kind, X, m, E, f, xs, ce, spec):
    """(mean, heterogeneity, individual curves or bins)"""
    o = make(kind, X, m, effects=E, nof_instances="all")
    if is_ale(kind):
        o.fit(f, binning_method=binning(spec), centering=ce)
    y, h = o.eval(f, xs, True, ce)
    extra = o.eval(f, xs, centering=ce, return_all=True) if is_pdp(kind) else None
    return np.asarray(y, dtype=float), np.asarray(h, dtype=float), extra


def tied(X, E, f, t, spec):
    """the two tellings get different bins, both of which the definition allows (equal costs up to rounding)"""
    if spec is None or spec[0] == "fixed":
        return False
    lim = []
    for Z, e, g in ((X, E, f), (t.data(X), t.effects(E), t.feature(f))):
        L = np.stack([Z.min(axis=0), Z.max(axis=0)])
        edges = bm.find_limits(Z, e, g, L, binning(spec)).limits
        if edges is False or not admissible(edges, Z[:, g], e[:, g], L[0, g], L[1, g], spec):
            return False
        lim.append(edges)
    a, b = lim[0], (lim[1] - t.B[f]) / t.A[f]
    return len(a) != len(b) or bool(np.any(np.abs(a - b) > 1e-6 * (a[-1] - a[0])))


def relate(c, kind, X, m, f, xs, ce, spec, t, tol):
    t.setup(*X.shape)
    E = m.jac(X)
    one = observe(Op("", lambda _: curves(kind, X.copy(), m, E, f, xs, ce, spec)), None)
    two = observe(Op("", lambda _: curves(kind, t.data(X), t.model(m), t.effects(E), t.feature(f), t.at(xs, f), ce, spec)), None)
    c.op(2)
    if one[0] != two[0] and kind.startswith("RHALE") and tied(X, E, f, t, spec):
        raise Skip()
    expect(one[0] == two[0], "%s: %s, originally %s", t.mc_name, two, one)
    if one[0] == "raises":
        raise Skip()
    (y, h, e), (y2, h2, e2) = one[1], two[1]
    slope = 1 / t.A[f] if kind.startswith("dPDP") else 1.0
    shift = t.shift if kind == "PDP" and ce is False else 0.0
    k = t.scale * slope
    try:
        same((y2 - shift) / k, y, "curve", tol)
        same(h2 / abs(k), h, "heterogeneity", tol)
    except Violation:
        if kind.startswith("RHALE") and tied(X, E, f, t, spec):
            raise Skip()
        raise
    if e is not None:
        same((e2 - shift) / k, e[:, t.R], "individual curves", tol)
    c.state(kind, t.mc_name, y)


SPECS = {"ALE": [("fixed", dict(nof_bins=2, min_points_per_bin=0, cat_limit=0)), ("fixed", dict(nof_bins=3, min_points_per_bin=0, cat_limit=0)), ("fixed", dict(nof_bins=3, min_points_per_bin=0, cat_limit=9)), ("fixed", dict(nof_bins=2, min_points_per_bin=2, cat_limit=0))],
         "RHALE": [("fixed", dict(nof_bins=2, min_points_per_bin=0, cat_limit=0)), ("greedy", dict(init_nof_bins=4, min_points_per_bin=2, discount=0.25, cat_limit=0)), ("dp", dict(max_nof_bins=4, min_points_per_bin=1, discount=0.25, cat_limit=0))]}


def tellings(N, D, which):
    """exact ones: powers of two and dyadic offsets"""
    rows = [Told("rows %s" % (p,), rows=p) for p in itertools.permutations(range(N))][1:]
    units = [Told("units x%g%+g of %s" % (a, b, "all" if k is None else k), a=[a if k in (None, d) else 1.0 for d in range(D)], b=[b if k in (None, d) else 0.0 for d in range(D)])
             for a, b in ((2.0, 0.0), (0.25, 1.0), (1.0, -8.0), (2.0 ** -24, 0.0), (2.0 ** 20, 0.0)) for k in [None] + list(range(D))]
    out = [Told("output x%g%+g" % (s, d), scale=s, shift=d) for s, d in ((1.0, 16.0), (-1.0, 0.0), (4.0, -2.0), (2.0 ** -20, 0.0), (2.0 ** 20, 0.0), (-0.5, 1.0))]
    cols = [Told("columns %s" % (p,), cols=p) for p in itertools.permutations(range(D))][1:]
    both = [Told("everything", rows=tuple(reversed(range(N))), cols=tuple(reversed(range(D))), a=[2.0, 0.5, 4.0][:D], b=[-1.0, 4.0, 0.5][:D], scale=-2.0, shift=3.0)]
    return {"rows": rows, "units": units, "output": out, "columns": cols, "both": both}[which]


def columns(c):
    kind = c.pick("method", [k for k in GLOBAL if k != "SHAP"])
    N = 4
    which = c.pick("told by", ["rows", "units", "output", "columns", "both"])
    col = c.pick("column", [v for v in gen.columns([0.0, 0.5, 1.0, 2.0] if c.tier == "thorough" else [0.0, 0.5, 2.0], N) if len(set(v)) > 1])
    D = c.pick("features", [2, 3] if c.tier == "thorough" else [2])
    f = c.pick("feature", [0] if c.tier == "quick" else list(range(D)))
    X = gen.with_column(col, D, f)
    T = tellings(N, D, which)
    if c.tier == "quick" and which == "rows":
        T = [t for t in T if t.rows in ((1, 0, 2, 3), (0, 1, 3, 2), (1, 2, 3, 0), (3, 2, 1, 0), (2, 3, 0, 1), (0, 2, 1, 3))]      # generators of all permutations, and some more
    t = c.pick("told", T)
    spec = c.pick("binning", SPECS["ALE" if kind == "ALE" else "RHALE"]) if is_ale(kind) else None
    ce = c.pick("centering", [False, True, "zero_start"] if c.tier == "thorough" else [False, True])
    if kind.endswith("num") and (which in ("units", "output", "both") or c.tier == "quick" and col[0] != 0.0):
        if which != "output" or abs(t.scale) > 1e3 or abs(t.scale) < 1e-3:
            raise Skip()          # finite differences have their own absolute step
    m = gen.poly(D)
    relate(c, kind, X, m, f, np.array([col.max(), col.min(), 0.75, 0.5 * (col.min() + col.max())]), ce, spec, t, 1e-7 if not kind.endswith("num") else 3e-5)


def shap_blind(t):
    """the shap package takes values for equal that differ by 1e-8 + 1e-5 |x|"""
    return np.any(t.A < 1e-3) or np.any(np.abs(t.B) > 100)


def shaped_sets():
    i = np.arange(20)
    return [gen.Data("20x3", np.stack([np.sin(3 * i) * 2 + 1, np.cos(5 * i) + 0.01 * i, np.sin(i * i)], axis=1)), gen.Data("20x2 skewed", np.stack([np.exp(np.sin(7 * i)), np.cos(i) ** 3], axis=1)),
            gen.Data("12x1", (np.sin(2 * i[:12]) * 3)[:, None]), gen.Data("16x4", np.stack([np.sin((k + 2) * i[:16] + k) for k in range(4)], axis=1))]


def generic(N, D):
    i = np.arange(N)
    k = list(range(D))
    return ([Told("rows reversed", rows=i[::-1]), Told("rows rotated", rows=np.roll(i, 3)), Told("rows shuffled", rows=np.argsort(np.sin(i + 0.5)))] +
            [Told("units x%g%+g of %s" % (a, b, w), a=[a if w == "all" or d == w else 1.0 for d in k], b=[b if w == "all" or d == w else 0.0 for d in k])
             for a, b in ((3.7, 0.1), (1e-7, 0.0), (1e7, 0.0), (0.013, 1000.0)) for w in ["all"] + k] +
            [Told("output x%g%+g" % p, scale=p[0], shift=p[1]) for p in ((1.0, 7.3), (-3.3, 0.0), (1e-7, 0.0), (1e7, 0.0), (0.37, -11.0))] +
            [Told("columns %s" % (p,), cols=p) for p in itertools.permutations(k)][1:8] + [Told("everything", rows=np.roll(i, 5), cols=tuple(reversed(k)), a=[3.1, 0.7, 11.0, 0.3][:D], b=[-5.0, 0.4, 2.0, 1.0][:D], scale=-1.7, shift=0.3)])


def shaped(c):
    kind = c.pick("method", GLOBAL)
    d = c.pick("data", shaped_sets())
    X = d.X
    N, D = X.shape
    m = c.pick("model", [gen.poly(D), gen.cond(D, D - 1, 0.1)])
    f = c.pick("feature", list(range(D)))
    t = c.pick("told", generic(N, D))
    ce = c.pick("centering", [False, True, "zero_start"])
    spec = c.pick("binning", [("fixed", dict(nof_bins=4, min_points_per_bin=0, cat_limit=0)), ("fixed", dict(nof_bins=20, min_points_per_bin=0, cat_limit=0))] if kind == "ALE" else
                  [("greedy", dict(init_nof_bins=8, min_points_per_bin=3, discount=0.3, cat_limit=0)), ("dp", dict(max_nof_bins=7, min_points_per_bin=2, discount=0.3, cat_limit=0)), ("fixed", dict(nof_bins=4, min_points_per_bin=0, cat_limit=0))]) if is_ale(kind) else None
    quick = c.tier == "quick"
    if kind == "SHAP":
        if t.scale != 1.0 or shap_blind(t.setup(N, D)) or quick and (ce is True or d.mc_name in ("16x4",) or D == 3 and f or m.mc_name != "poly"):
            raise Skip()      # the smoothing spline works on an absolute scale
    if m.mc_name != "poly" and D == 1:
        raise Skip()
    if kind.endswith("num") and (np.any(np.abs(np.log(t.setup(N, D).A)) > 3) or t.scale not in (1.0, -3.3) or np.any(t.B > 10) or m.mc_name != "poly"):
        raise Skip()
    far = np.any(np.abs(t.setup(N, D).B) > 100)
    xs = np.array([X[:, f].min(), X[:, f].max(), X[:, f].mean(), X[:, f].min() + 0.777 * np.ptp(X[:, f])])
    relate(c, kind, X, m, f, xs, ce, spec, t, 1e-4 if kind.endswith("num") else 5e-3 if kind == "SHAP" and np.any(t.A != 1) else 1e-5 if far or kind == "SHAP" else 1e-6)


# ---------------------------------------------------------------- regional: the tree is told in the other units
def tree(o, f, t, X):
    """[(level, instances, conditioning feature, position, heterogeneity)] in the original terms"""
    out = []
    for n in o.tree_full["feature_%d" % t.feature(f)].nodes:
        D = t.back(np.asarray(n.data["data"], dtype=float))
        ids = sorted(int(np.argmin(np.abs(X - r).sum(axis=1))) for r in D)
        foc = n.data.get("feature") if n.level else None
        pos = None if foc is None else (n.data["position"] - t.B[t.C[foc]]) / t.A[t.C[foc]]
        out.append((n.level, ids, None if foc is None else int(t.C[foc]), pos, float(n.data["heterogeneity"])))
    return out


def regional(c):
    kind = c.pick("method", REGIONAL)
    d = c.pick("data", shaped_sets()[:2] + shaped_sets()[3:])
    X = d.X
    N, D = X.shape
    m = c.pick("model", [gen.poly(D), gen.prod(D)])
    f = c.pick("feature", [0, 1])
    t = c.pick("told", generic(N, D)).setup(N, D)
    depth = c.pick("depth", [1, 2])
    if kind == "SHAP" and (t.scale != 1.0 or shap_blind(t) or c.tier == "quick" and (depth > 1 or f or D > 2)):
        raise Skip()
    if m.mc_name != "poly" and c.tier == "quick" and depth > 1 or depth >= D:
        raise Skip()
    if kind.endswith("num") and (np.any(np.abs(np.log(t.A)) > 3) or t.scale != 1.0 or np.any(t.B > 10) or m.mc_name != "poly"):
        raise Skip()
    if  kind.startswith("dPDP") and (np.any(t.A < 1e-6) or np.any(t.A > 1e5)):
        raise Skip()           # heterogeneity beyond the library's marker, 1e30, or lost in sums with it
    E = m.jac(X)
    p = dict(BASE, depth=depth, thres=0.0, small=0.0, minp=4, npos=5, centering=not kind.startswith("dPDP"),       # the centred derivatives of these models are homogeneous
              spec=("fixed", dict(nof_bins=3, min_points_per_bin=0, cat_limit=0)) if kind == "ALE" else GREEDY)
    g = t.feature(f)
    ident = Told("", None).setup(N, D)
    a = make_regional(kind, X.copy(), m, effects=E, nof_instances="all", feature_types=["cont"] * D)
    a.fit(f, **fit_args(p, kind))
    b = make_regional(kind, t.data(X), t.model(m), effects=t.effects(E), nof_instances="all", feature_types=["cont"] * D)
    b.fit(g, **fit_args(p, kind))
    c.op(2)
    one, two = tree(a, f, ident, X), tree(b, f, t, X)
    slope = abs(t.scale) / (t.A[f] if kind.startswith("dPDP") else 1.0)
    tol = 1e-3 if kind.endswith("num") else 1e-5
    # which impossible split (too few instances on a side) a level of the full tree lists is not prescribed
    deep = min([n[0] for n in one + two if n[4] >= 1e30], default=99)
    one, two = [[n for n in q if n[0] < deep] for q in (one, two)]
    expect(len(one) == len(two), "%d nodes, originally %d", len(two), len(one))
    for k, ((l1, i1, f1, _, h1), (l2, i2, f2, _, h2)) in enumerate(zip(one, two)):          # candidates that divide the instances alike tie: the position may be any of them
        expect(l1 == l2 and f1 == f2 and i1 == i2, "node %d: feature %s, instances %s, originally %s, %s", k, f2, i2, f1, i1)
        same([h2 / slope], [h1], "heterogeneity of node %d" % k, tol)
    c.state(one)


# ---------------------------------------------------------------- bins
def bins(c):
    """find_limits: all permutations of all columns, exact units and output scales"""
    N = 5
    kind = c.pick("binning", [("fixed", dict(nof_bins=3, min_points_per_bin=1, cat_limit=0)), ("fixed", dict(nof_bins=4, min_points_per_bin=2, cat_limit=9)), ("greedy", dict(init_nof_bins=4, min_points_per_bin=1, discount=0.25, cat_limit=0)),
                              ("greedy", dict(init_nof_bins=4, min_points_per_bin=2, discount=0.5, cat_limit=0)), ("dp", dict(max_nof_bins=4, min_points_per_bin=1, discount=0.25, cat_limit=0)), ("dp", dict(max_nof_bins=4, min_points_per_bin=2, discount=0.0, cat_limit=9))])
    col = c.pick("column", [v for v in gen.columns([0.0, 0.5, 1.0, 2.0], N) if len(set(v)) > 1 and list(v) == sorted(v)])
    eff = c.pick("effects", gen.columns([0.0, 1.0] if c.tier == "quick" else [0.0, 1.0, 3.0], N))
    X, E = np.stack([col, np.arange(N) * 1.0], axis=1), np.stack([eff, np.zeros(N)], axis=1)
    L = np.stack([X.min(axis=0), X.max(axis=0)])
    first = bm.find_limits(X, E, 0, L, binning(kind)).limits
    T = [Told("rows %s" % (p,), rows=p) for p in ((1, 0, 2, 3, 4), (1, 2, 3, 4, 0), (4, 3, 2, 1, 0))] + [Told("units", a=[4.0, 1.0], b=[-3.0, 0.0]), Told("tiny units", a=[2.0 ** -30, 1.0]), Told("far", a=[1.0, 1.0], b=[1024.0, 0.0]), Told("output", scale=-8.0), Told("small output", scale=2.0 ** -20)]
    for t in T:
        t.setup(N, 2)
        got = bm.find_limits(t.data(X), t.effects(E), 0, L * t.A + t.B, binning(kind)).limits
        c.op()
        expect((first is False) == (got is False), "%s: bins %s, originally %s", t.mc_name, got, first)
        if first is not False:
            try:
                same((np.asarray(got) - t.B[0]) / t.A[0], first, "bins, " + t.mc_name, 1e-7)
            except Violation:
                if not tied(X, E, 0, t, kind):
                    raise
    c.state(first)


def measures(c):
    X = c.pick("data", shaped_sets()[:2] + shaped_sets()[3:]).X
    N, D = X.shape
    m = c.pick("model", [gen.poly(D), gen.cond(D, D - 1, 0.1)])
    t = c.pick("told", generic(N, D)).setup(N, D)
    i = c.pick("feature", [0, 1])
    h, h2 = inter.HIndex(X, m.f, nof_instances="all"), inter.HIndex(t.data(X), t.model(m).f, nof_instances="all")
    r, r2 = inter.REPID(X, m.f, None, "all"), inter.REPID(t.data(X), t.model(m).f, None, "all")
    tol = 1e-5
    same([h2.eval_one_vs_all(t.feature(i))], [h.eval_one_vs_all(i)], "H-index, one versus rest", tol)
    same([h2.eval_pairwise(t.feature(i), t.feature(1 - i))], [h.eval_pairwise(i, 1 - i)], "H-index, pair", tol)
    same([r2.eval_one_vs_all(t.feature(i)) / abs(t.scale)], [r.eval_one_vs_all(i)], "REPID", tol)
    c.op(6)
    c.state(t.mc_name)


BOUNDS = ("every column over 3 (thorough: 4) values for 4 instances x generators of all row permutations (thorough: all) x 15 exact changes of units x 6 of the output x column permutations x methods x binnings; "
          "4 generic data sets x about 30 tellings x methods; find_limits on every sorted column of 5 and every effect vector; regional trees; interaction measures")
ASSUMPTIONS = ["exact relations are compared on dyadic data so that ties stay ties; generic ones to 1e-5 relative", "finite-difference Jacobians have an absolute step and are excluded from changes of units",
               "SHAP-DP smooths on an absolute scale: it is excluded from output scaling"]


def scenarios(tier):
    return [Scenario("all-columns", columns), Scenario("shaped", shaped), Scenario("bins", bins), Scenario("regional", regional), Scenario("measures", measures)]
