"""C17: plots draw what evaluation returns, in the requested units."""
import numpy as np

import effector.binning_methods as bm
from mc import gen, ref
from mc.boot import plt
from mc.common import GLOBAL, REGIONAL, CENTERINGS, make, make_regional, expect, same, binning, is_ale, is_pdp, figure
from mc.engine import Scenario, Skip, Opt
from mc.history import drawn, difference
from mc.checks.c12 import fit_args, BASE, FIXED2

SHAP = True
SX, SY = {"mean": 5.0, "std": 2.5}, {"mean": -20.0, "std": 4.0}


def axis(x, s):
    return np.asarray(x, float) * (s["std"] if s else 1.0) + (s["mean"] if s else 0.0)


def slope(v, sx, sy):
    return np.asarray(v, float) * (sy["std"] if sy else 1.0) / (sx["std"] if sx else 1.0)


def unaxis(x, s):
    return (np.asarray(x, float) - (s["mean"] if s else 0.0)) / (s["std"] if s else 1.0)


def lines_of(ax):
    return [(np.atleast_1d(np.asarray(l.get_xdata(), float)), np.atleast_1d(np.asarray(l.get_ydata(), float)), l.get_marker(), l.get_linestyle()) for l in ax.lines]


def horizontal(l, ax):
    """an axhline: x in axes coordinates"""
    return len(l[0]) == 2 and l[0].tolist() == [0, 1] and l[1][0] == l[1][1]


def band(ax):
    """filled regions as {x: (lower, upper)}"""
    out = []
    for col in ax.collections:
        if type(col).__name__ in ("PolyCollection", "FillBetweenPolyCollection"):
            d = {}
            for p in col.get_paths():
                for x, y in p.vertices:
                    lo, hi = d.get(x, (np.inf, -np.inf))
                    d[x] = (min(lo, y), max(hi, y))
            out.append(d)
    return out


def bars_and_errors(ax):
    bars, errs = [], []
    for cont in ax.containers:
        if type(cont).__name__ == "BarContainer":
            bars += [(r.get_x(), r.get_width(), r.get_height() + r.get_y()) for r in cont.patches]
    for col in ax.collections:
        if type(col).__name__ == "LineCollection":
            errs += [np.asarray(s) for s in col.get_segments() if len(s)]
    return np.array(bars).reshape(-1, 3), errs


def find(lines, x, y, tol):
    return [i for i, l in enumerate(lines) if len(l[0]) == len(x) and ref.close(l[0], x, tol) and ref.close(l[1], y, tol)]


def common_labels(ax, kind, foi, names, target, avg, want_avg, y_limits, lines, xax=None):
    expect((xax or ax).get_xlabel() == (names[foi] if names else "x_%d" % foi), "x axis is labelled %r", (xax or ax).get_xlabel())
    want = "dy/dx" if kind.startswith("dPDP") else (target or "y")
    expect(ax.get_ylabel() == want, "y axis is labelled %r, expected %r", ax.get_ylabel(), want)
    word = {"PDP": "PDP", "ALE": "ALE", "SHAP": "SHAP"}.get(kind, "d-PDP" if "PDP" in kind else "RHALE")
    expect(word.lower() in ax.get_title().lower(), "title is %r", ax.get_title())
    if y_limits is not None:
        same(ax.get_ylim(), y_limits, "y limits", 1e-12)
    hs = [l for l in lines if horizontal(l, ax)]
    expect(len(hs) == (1 if want_avg else 0), "%d average-output lines, expected %d", len(hs), want_avg)
    if want_avg and not kind.startswith("dPDP"):
        same(hs[0][1][:1], [avg], "average output line", 1e-9)
    return [l for l in lines if not horizontal(l, ax)]


def check_pdp(ax, kind, o, foi, het, ce, sx, sy, nof_points, nof_ice, lines, lo, hi, k=1):
    tol = 1e-7 if "num" not in kind else 1e-4
    curves = [i for i, l in enumerate(lines) if len(l[0]) > 1]
    expect(len(curves) == len(lines), "unexpected marks")
    expect(lines, "no curve is drawn")
    for l in lines:
        expect(len(l[0]) == nof_points, "a curve of %d points is drawn, expected %d", len(l[0]), nof_points)
        same(l[0], lines[-1][0], "positions of the curves", 1e-12)
    x = unaxis(lines[-1][0], sx)
    same(x[[0, -1]], [lo, hi], "ends of the curve", 1e-9)
    expect(np.all(np.diff(x) > 0), "positions do not increase")
    x = np.clip(x, lo, hi)
    yy = o.eval(foi, x, centering=ce, return_all=True)
    der = kind.startswith("dPDP")
    tr = (lambda v: slope(v, sx, sy)) if der else (lambda v: axis(v, sy))
    mean, std = tr(yy.mean(axis=1)), (slope(yy.std(axis=1), sx, sy) if der else yy.std(axis=1) * (sy["std"] if sy else 1.0))
    mi = find(lines, lines[-1][0], mean, tol)
    expect(mi, "the mean curve is not drawn: drawn %s, evaluated %s", lines[-1][1], mean)
    b = band(ax)
    if het == "ice":
        N = yy.shape[1]
        rest = [l for i, l in enumerate(lines) if i != mi[-1]]
        used = {}
        for l in rest:
            hit = [j for j in range(N) if ref.close(l[1], tr(yy[:, j]), tol)]
            expect(hit, "a drawn curve is no ICE curve")
            used.setdefault(tuple(hit), []).append(1)
        want = N if nof_ice == "all" else min(nof_ice, N)
        expect(want <= len(rest) <= want + 1, "%d ICE curves drawn, expected %d", len(rest), want)
        if nof_ice == "all":
            expect({j for h in used for j in h} == set(range(N)), "not every ICE curve is drawn")
        for h, n in used.items():
            expect(len(n) <= len(h) + 1, "an ICE curve is drawn repeatedly")
        expect(not b, "a band is drawn with the ICE curves")
    else:
        expect(len(lines) == 1, "%d curves are drawn, expected one", len(lines))
        expect(len(b) == (1 if het in ("std", "std_err", True) else 0), "%d bands are drawn (heterogeneity=%s)", len(b), het)
        if b:
            s = std / np.sqrt(yy.shape[1]) if het == "std_err" else std
            check_band(b[0], lines[-1][0], mean, s, tol)


def check_band(b, x, mean, s, tol):
    for xv, m, sv in zip(x, mean, s):
        near = [v for k, v in b.items() if abs(k - xv) <= 1e-9 * max(1.0, abs(xv))]
        expect(near, "the band does not cover %r", xv)
        same([min(v[0] for v in near), max(v[1] for v in near)], [m - abs(sv), m + abs(sv)], "band at %r" % xv, tol)


def check_shap(ax, o, foi, het, ce, sx, sy, nof_points, nof, lines, lo, hi, E, X):
    curve = [l for l in lines if len(l[0]) == nof_points and l[2] in (None, "None", "")]
    expect(len(curve) == 1, "%d curves are drawn", len(curve))
    x = unaxis(curve[0][0], sx)
    same(x[[0, -1]], [lo, hi], "ends of the curve", 1e-9)
    y, s = o.eval(foi, x, True, ce)
    same(curve[0][1], axis(y, sy), "curve", 1e-7)
    b = band(ax)
    marks = [l for l in lines if l is not curve[0]]
    expect(len(b) == (1 if het in ("std", True) else 0), "%d bands (heterogeneity=%s)", len(b), het)
    if b:
        check_band(b[0], curve[0][0], axis(y, sy), s * (sy["std"] if sy else 1.0), 1e-7)
    if het == "shap_values":
        shift = float(o.eval(foi, np.array([lo]), centering=False)[0] - o.eval(foi, np.array([lo]), centering=ce)[0])
        pts = sorted({(round(float(a), 6), round(float(v), 6)) for l in marks for a, v in zip(unaxis(l[0], sx), unaxis(l[1], sy) + shift)})
        phi = ref.shapley(E, X)[:, foi]
        want = sorted({(round(float(a), 6), round(float(v), 6)) for a, v in zip(X[:, foi], phi)})
        n = sum(len(l[0]) for l in marks)
        k = len(X) if nof == "all" else min(nof, len(X))
        expect(k <= n <= k + 1, "%d SHAP values are drawn, expected %d", n, k)
        for p in pts:
            expect(any(abs(p[0] - q[0]) < 1e-5 and abs(p[1] - q[1]) < 1e-4 for q in want), "drawn point %r is no SHAP value", p)
        if nof == "all":
            for q in want:
                expect(any(abs(p[0] - q[0]) < 1e-5 and abs(p[1] - q[1]) < 1e-4 for p in pts), "SHAP value %r is not drawn", q)
    else:
        expect(not marks, "points are drawn (heterogeneity=%s)", het)


def check_ale(axes, kind, o, foi, het, ce, sx, sy, dy_limits, lines, lo, hi):
    tol = 1e-7 if "num" not in kind else 1e-4
    ax, ax2 = axes
    edges = np.asarray(o.feature_effect["feature_%d" % foi]["limits"], float)
    expect(len(lines) == 1, "%d curves are drawn", len(lines))
    x = unaxis(lines[0][0], sx)
    same(x[[0, -1]], edges[[0, -1]], "ends of the curve", 1e-9)
    x = np.clip(x, edges[0], edges[-1])
    same(lines[0][1], axis(o.eval(foi, x, centering=ce), sy), "curve", tol)
    y, h = o.eval(foi, edges, True, False)
    dx = np.diff(edges)
    bars, errs = bars_and_errors(ax2)
    expect(len(bars) == len(dx), "%d bars are drawn, there are %d bins", len(bars), len(dx))
    e = axis(edges, sx)
    same(bars[:, 0], e[:-1], "left edges of the bars", 1e-9)
    same(bars[:, 0] + bars[:, 1], e[1:], "right edges of the bars", 1e-9)
    eff = slope(np.diff(y) / dx, sx, sy)
    same(bars[:, 2], eff, "bin effects", 10 * tol)
    if het in (True, "std"):
        sd = slope(np.diff(h) / dx, sx, sy)
        expect(len(errs) == len(dx), "%d error bars are drawn, there are %d bins", len(errs), len(dx))
        c = 0.5 * (e[1:] + e[:-1])
        for k, s in enumerate(errs):
            same(s[:, 0], [c[k]] * 2, "error bar positions", 1e-9)
            same(sorted(s[:, 1]), [eff[k] - sd[k], eff[k] + sd[k]], "error bar", 10 * tol)
    elif het is False:
        expect(not errs, "error bars are drawn")
    expect(ax2.get_ylabel() == "dy/dx", "lower axis is labelled %r", ax2.get_ylabel())
    if dy_limits is not None:
        same(ax2.get_ylim(), dy_limits, "dy limits", 1e-12)


def sets():
    i = np.arange(12)
    return [gen.Data("12x2", np.stack([(i * 5 % 12) / 4.0, (i * 7 % 12) / 6.0 - 1.0], axis=1)),
            gen.Data("9x3", np.stack([(i[:9] * 2 % 9) * 1.0 - 4, (i[:9] * 4 % 9) / 8.0, np.cos(i[:9])], axis=1))]


def options(kind, tier):
    hs = {"PDP": [False, True, "std", "std_err", "ice"], "SHAP": [False, True, "std", "shap_values"]}.get(kind, [False, True, "ice", "std_err"] if "PDP" in kind else [False, True, "std"])
    out = []
    for n, h in enumerate(hs):
        for sx in (None, SX):
            for sy in (None, SY):
                for extra in (0, 1):
                    if tier == "quick" and extra and (sx is None) != (sy is None):
                        continue
                    out.append((h, sx, sy, extra))
    return out


def main(c):
    kind = c.pick("method", GLOBAL)
    d = c.pick("data", sets())
    foi = c.pick("feature", list(range(d.X.shape[1]))[: 2 if c.tier == "quick" else 3])
    ce = c.pick("centering", CENTERINGS)
    nm = c.pick("names", [None, ["speed (km/h)", "b", "c"]])
    lim = c.pick("axis limits", ["data", "given"])
    if c.tier == "quick" and kind == "SHAP" and (lim == "given" or nm) and ce is not True:
        raise Skip()
    if c.tier == "quick" and kind in ("RHALE-jac", "RHALE-num", "dPDP-num") and (nm or lim == "given"):
        raise Skip()
    X = d.X
    m = gen.poly(X.shape[1])
    L = ref.limits_of(X)
    kw = {}
    if lim == "given":
        L[0, foi] += 0.3
        L[1, foi] -= 0.2
        kw["axis_limits"] = L.copy()
    names = nm[: X.shape[1]] if nm else None
    target = "price" if nm else None
    if nm:
        kw["avg_output"] = 7.25
    avg = 7.25 if nm else float(np.mean(m.f(X)))
    o = make(kind, X, m, feature_names=list(names) if names else None, target_name=target, nof_instances="all", **kw)
    fresh = make(kind, X, m, nof_instances="all", **({"axis_limits": L.copy()} if lim == "given" else {}))
    if is_ale(kind):
        b = binning(("fixed", dict(nof_bins=3, min_points_per_bin=0, cat_limit=0)))
        o.fit(foi, binning_method=b, centering=ce)
        fresh.fit(foi, binning_method=binning(("fixed", dict(nof_bins=3, min_points_per_bin=0, cat_limit=0))), centering=ce)
    inside = X[ref.inside(X, L, foi)]
    for het, sx, sy, extra in options(kind, c.tier):
        a = dict(heterogeneity=het, centering=ce, scale_x=None if sx is None else dict(sx), scale_y=None if sy is None else dict(sy))
        nof_points, some, y_limits, dy_limits = 30, "all", None, None
        if extra:
            a["show_avg_output"] = True
            a["y_limits"] = y_limits = [-31.5, 47.25]
            if is_ale(kind):
                a["dy_limits"] = dy_limits = [-3.5, 8.0]
            else:
                a["nof_points"] = nof_points = 7
                some = 3 if sx is None else 500
                a["nof_ice" if is_pdp(kind) else "nof_shap_values"] = some
        with figure() as fig:
            o.plot(foi, **a)
            axes = fig.axes
            expect(len(axes) == (2 if is_ale(kind) else 1), "%d axes", len(axes))
            lines = lines_of(axes[0])
            lines = common_labels(axes[0], kind, foi, names, target, float(axis(avg, sy)), bool(extra), y_limits, lines, axes[-1])
            lo, hi = L[:, foi]
            if is_pdp(kind):
                check_pdp(axes[0], kind, fresh, foi, het, ce, sx, sy, nof_points, some, lines, lo, hi)
            elif kind == "SHAP":
                check_shap(axes[0], fresh, foi, het, ce, sx, sy, nof_points, some, lines, lo, hi, m.f, inside)
            else:
                check_ale(axes, kind, fresh, foi, het, ce, sx, sy, dy_limits, lines, lo, hi)
        c.op()
        c.state(str(het), sx is None, sy is None, extra)


def regional(c):
    """a rescaled plot of a region is the rescaled plot of the global method on the region's instances"""
    kind = c.pick("method", [k for k in REGIONAL if k != "SHAP" or c.tier == "thorough"])
    i = np.arange(24)
    X = np.stack([(i * 7 % 24) / 6.0, (i % 3) * 1.0, (i * 5 % 24) / 12.0 - 1.0], axis=1)
    m = gen.poly(3)
    foi = c.pick("feature", [0, 2])
    ce = c.pick("centering", [True, False])
    S = [{"mean": 1.0, "std": 2.0}, {"mean": -3.0, "std": 0.5}, {"mean": 100.0, "std": 10.0}]
    sx = c.pick("scale x", [S, None])
    sy = c.pick("scale y", [SY, None])
    obj = make_regional(kind, X, m, nof_instances="all", cat_limit=4)
    obj.fit(foi, **fit_args(dict(BASE, depth=1, thres=-1e9, small=-1.0, minp=4, spec=FIXED2), kind))
    for node in obj.tree_pruned["feature_%d" % foi].nodes:
        ids = np.array([tuple(r) in {tuple(q) for q in node.data["data"]} for r in X])
        name = obj.get_node_info(foi, node.idx, sx)[2]
        g = make(kind, X[ids], m, nof_instances="all", feature_names=[name if k == foi else "x_%d" % k for k in range(3)])
        if is_ale(kind):
            g.fit(foi, binning_method=binning(FIXED2), centering=ce)
        het = "ice" if is_pdp(kind) else True
        kw = {} if not is_ale(kind) else {"dy_limits": [-3.0, 4.0]}
        got = drawn(lambda: obj.plot(foi, node.idx, heterogeneity=het, centering=ce, scale_x_list=sx, scale_y=sy, y_limits=[-5, 6], **kw))
        want = drawn(lambda: g.plot(foi, heterogeneity=het, centering=ce, scale_x=sx[foi] if sx else None, scale_y=sy, y_limits=[-5, 6], **kw))
        d = difference(got, want, 1e-7)
        expect(d is None, "plot of %r: %s", node.name, d)
        c.op()
    c.state(kind)


def bins(c):
    """the picture of a binning: the effects against the feature, with its edges"""
    i = np.arange(24)
    X = np.stack([np.sin(3 * i), i % 5 * 1.0, np.cos(5 * i) * 10], axis=1)
    E = np.stack([np.cos(i), i * 1.0 - 7, np.sin(2 * i) + 3], axis=1)
    f = c.pick("feature", [0, 1, 2])
    spec = c.pick("binning", [("fixed", dict(nof_bins=4, min_points_per_bin=0, cat_limit=7)), ("greedy", dict(init_nof_bins=6, min_points_per_bin=3, discount=0.3, cat_limit=2)), ("dp", dict(max_nof_bins=5, min_points_per_bin=3, discount=0.3, cat_limit=7))])
    L = np.stack([X.min(axis=0), X.max(axis=0)])
    b = bm.find_limits(X, E, f, L, binning(spec))
    if not hasattr(b, "plot") or b.limits is False:
        raise Skip()
    how = c.pick("call", ["named", "block"])
    with figure() as fig:
        b.plot(feature=f) if how == "named" else b.plot(f, block=False)
        ax = fig.axes[0]
        pts = [l for l in ax.lines if len(l.get_xdata()) == 24 and l.get_linestyle() in ("None", "", " ")]
        expect(len(pts) == 1, "the effects are drawn %d times", len(pts))
        same(np.asarray(pts[0].get_xdata(), float), X[:, f], "drawn values")
        same(np.asarray(pts[0].get_ydata(), float), E[:, f], "drawn effects")
        edges = [p.vertices for col in ax.collections for p in col.get_paths()]
        same(np.array(sorted(v[0, 0] for v in edges)), np.array(b.limits, dtype=float), "drawn edges")
        for v in edges:
            expect(v[0, 0] == v[1, 0] and abs(v[:, 1].min() - E[:, f].min()) < 1e-12 and abs(v[:, 1].max() - E[:, f].max()) < 1e-12, "an edge is drawn as %s", v.tolist())
        expect(ax.get_title().endswith("feature %d" % (f + 1)), "title %r", ax.get_title())
        for label in (ax.get_xlabel(), ax.get_ylabel()):        # whichever way features are counted, everything in the picture counts them alike
            expect(label.endswith("_%d" % (f + 1)), "label %r under the title %r", label, ax.get_title())
    c.op()
    c.state(f, spec, how)


def large(c):
    """more curves, bins and features than anything is likely to draw by hand"""
    kind = c.pick("method", ["PDP", "dPDP-jac", "ALE", "RHALE-jac", "SHAP"])
    N, D = c.pick("N, D", [(260, 2), (700, 2), (40, 13)] if kind != "SHAP" else [(80, 2)])
    X = np.stack([np.sin((3 + 2 * d) * np.arange(N) + d) for d in range(D)], axis=1)
    m = gen.poly(D)
    foi = c.pick("feature", [D - 1, 0] if D < 4 else [12, 10, 1])
    ce = c.pick("centering", [False, True])
    sx, sy = c.pick("scales", [(None, None), (SX, SY)])
    hets = {"PDP": ["ice", "std"], "SHAP": ["shap_values", "std"]}.get(kind, ["ice"] if "PDP" in kind else [True])
    het = c.pick("heterogeneity", hets)
    some = c.pick("curves", ["all", 211, 5] if het == "ice" else ["all", 61] if het == "shap_values" else ["all"])
    nof_points = c.pick("points", [30, 301] if not is_ale(kind) and N < 700 and het != "ice" else [30])
    if N >= 700 and (het == "ice" or c.tier == "quick" and foi == 0) or c.tier == "quick" and het == "ice" and (foi == 0 and some != "all" or ce and sx and some != 5):
        raise Skip()
    names = ["feature %d" % (k * 7 % D) for k in range(D)] if D > 4 else None
    L = ref.limits_of(X)
    o = make(kind, X, m, feature_names=list(names) if names else None, nof_instances="all")
    fresh = make(kind, X, m, nof_instances="all")
    a = dict(heterogeneity=het, centering=ce, scale_x=None if sx is None else dict(sx), scale_y=None if sy is None else dict(sy), show_avg_output=True)
    if is_ale(kind):
        for q in (o, fresh):
            q.fit(foi, binning_method=binning(("fixed", dict(nof_bins=1 + N // 5, min_points_per_bin=0, cat_limit=0))), centering=ce)
    else:
        a["nof_points"] = nof_points
        a["nof_ice" if is_pdp(kind) else "nof_shap_values"] = some
    with figure() as fig:
        o.plot(foi, **a)
        axes = fig.axes
        lines = common_labels(axes[0], kind, foi, names, None, float(axis(float(np.mean(m.f(X))), sy)), True, None, lines_of(axes[0]), axes[-1])
        lo, hi = L[:, foi]
        if is_pdp(kind):
            check_pdp(axes[0], kind, fresh, foi, het, ce, sx, sy, nof_points, some, lines, lo, hi)
        elif kind == "SHAP":
            check_shap(axes[0], fresh, foi, het, ce, sx, sy, nof_points, some, lines, lo, hi, m.f, X)
        else:
            check_ale(axes, kind, fresh, foi, het, ce, sx, sy, None, lines, lo, hi)
    c.op()
    c.state(kind, N, str(het), some)


BOUNDS = ("plots of up to 700 instances, 140 bins and 13 features; 8 methods x 2 data sets x features x 4 centerings x names/average output x axis limits x every combination of heterogeneity style, scaling of either axis, limits, point and "
          "curve counts; rescaled regional plots of every node; pictures of binnings")
ASSUMPTIONS = ["ICE curves and SHAP values drawn when only some are asked for may be any of them", "the average-output line of a derivative plot is only required to be drawn"]


def scenarios(tier):
    return [Scenario("global-plots", main), Scenario("regional-plots", regional), Scenario("bin-plots", bins), Scenario("large-plots", large)]
