"""C10: axis limits."""
import numpy as np

from mc import gen, ref
from mc.common import GLOBAL, make, same, expect, binning, is_ale, is_pdp, figure
from mc.engine import Scenario, Skip, Opt

SHAP = True


def data(name):
    i = np.arange(14)
    if name == "14x2":
        return np.stack([(i * 5 % 14) // 2 / 2.0, (i * 3 % 7) * 1.0 - 2], axis=1)
    if name == "14x3":
        return np.stack([(i * 5 % 14) // 2 / 2.0, (i * 3 % 7) * 1.0 - 2, np.cos(i * 1.0)], axis=1)
    raise KeyError(name)


def own_effects(X):
    N, D = X.shape
    return np.array([[((7 * i + 3 * d) % 11) / 4.0 - (i % 3) * 0.5 for d in range(D)] for i in range(N)])


def cuts(x):
    """limits for one feature: its name says how they relate to the data"""
    u = np.unique(x)
    lo, hi = u[0], u[-1]
    return [Opt("data range", (lo, hi)), Opt("touching inner values", (u[1], u[-2])), Opt("between values", (u[1] - 0.125, u[-2] + 0.125)),
            Opt("wider", (lo - 1.0, hi + 0.5)), Opt("left half touching", (lo - 0.25, u[-2])), Opt("right half", (u[1] + 0.0625, hi))]


NB = 2


def want(kind, m, X, E, feat, L, xs):
    """(mean, heterogeneity, individual curves or None) from the instances inside the feature's own limits"""
    sel = ref.inside(X, L, feat)
    Y = X[sel]
    lo, hi = L[:, feat]
    if len(Y) == 0:
        return None
    if is_pdp(kind):
        yy = ref.ice(m.f, Y, feat, xs) if kind == "PDP" else ref.dice(m.jac, Y, feat, xs)
        return yy.mean(axis=1), yy.std(axis=1), yy
    if kind == "SHAP":
        if len(set(Y[:, feat])) < 5:
            return None
        R = ref.ShapRef(m.f, Y, feat, Y[:, feat].min(), Y[:, feat].max())
        return R.mean(xs), R.std(xs), None
    edges = ref.fixed_edges(Y[:, feat], lo, hi, NB, 0, 0)
    if edges is None:
        return None
    eff = ref.ale_effects(m.f, Y, feat, edges) if kind == "ALE" else (E[sel, feat] if kind == "RHALE-eff" else m.jac(Y)[:, feat])
    R = ref.AleRef(Y[:, feat], eff, edges, lo, hi)
    return (R.eval(xs), R.heter(xs), None) if R.defined() else None


def check(c, kind, obj, m, X, E, feat, L, plot=False):
    lo, hi = L[:, feat]
    xs = np.array([lo, hi, 0.5 * (lo + hi), 0.75 * lo + 0.25 * hi, lo - 0.5, hi + 0.5])
    w = want(kind, m, X, E, feat, L, xs)
    if w is None:
        return False
    tol = 1e-4 if "num" in kind else 1e-6 if kind == "SHAP" else 1e-9
    if is_ale(kind):
        obj.fit(feat, binning_method=binning(("fixed", dict(nof_bins=NB, min_points_per_bin=0, cat_limit=0))))
    y, h = obj.eval(feat, xs, heterogeneity=True)
    same(y, w[0], "curve", tol)
    same(h, w[1], "heterogeneity", max(10 * tol, 1e-8))
    if w[2] is not None:
        same(obj.eval(feat, xs, return_all=True), w[2], "individual curves", tol)
    c.op(2)
    if plot:
        with figure() as fig:
            obj.plot(feat, **({"heterogeneity": "shap_values"} if kind == "SHAP" else {}))
            ax = fig.axes[0]
            ln = max(ax.lines, key=lambda l: len(l.get_xdata()) if l.get_marker() != "x" else -1)
            px = np.asarray(ln.get_xdata(), float)
            same([px.min(), px.max()], [lo, hi], "range of the drawn curve", 1e-9)
            if kind == "SHAP":
                sc = max([l for l in ax.lines if l.get_marker() == "x"], key=lambda l: len(l.get_xdata()))
                sel = ref.inside(X, L, feat)
                same(np.sort(np.asarray(sc.get_xdata(), float)), np.sort(X[sel, feat]), "scattered instances", 1e-9)
        c.op()
    c.state(y, h)
    return True


def one_feature(c):
    """all combinations of limits on two features"""
    kind = c.pick("method", GLOBAL)
    X = data(c.pick("data", ["14x2", "14x3"]))
    D = X.shape[1]
    m = c.pick("model", [gen.poly, gen.prod])(D)
    feat = c.pick("feature", [0, 1])
    a = c.pick("limits of feature 0", cuts(X[:, 0]))
    b = c.pick("limits of feature 1", cuts(X[:, 1]))
    L = np.stack([X.min(axis=0), X.max(axis=0)])
    L[:, 0], L[:, 1] = a, b
    E = own_effects(X)
    obj = make(kind, X, m, effects=E if kind == "RHALE-eff" else None, axis_limits=L.copy())
    if not check(c, kind, obj, m, X, E, feat, L, plot=True):
        raise Skip()


def sequences(c):
    """features one after the other from one object: limits of one never reduce the instances of another"""
    kind = c.pick("method", GLOBAL)
    X = data("14x3")
    m = gen.poly(3)
    L = np.stack([X.min(axis=0), X.max(axis=0)])
    L[:, 0], L[:, 1] = cuts(X[:, 0])[1].value, cuts(X[:, 1])[5].value
    L[:, 2] = (-0.5, 0.95) if kind != "SHAP" else (-0.95, 0.95)
    E = own_effects(X)
    obj = make(kind, X, m, effects=E if kind == "RHALE-eff" else None, axis_limits=L.copy())
    for k in range(4 if c.tier == "thorough" else 3):
        f = c.pick("call %d" % k, ["0", "1", "2", "plot 0", "centred 1", "fit all"])
        if f == "plot 0":
            with figure():
                obj.plot(0, centering=True)
        elif f == "centred 1":
            obj.eval(1, L[:, 1].copy(), centering="zero_start")
        elif f == "fit all":
            obj.fit("all", **({"binning_method": binning(("fixed", dict(nof_bins=NB, min_points_per_bin=0, cat_limit=0)))} if is_ale(kind) else {}))
        else:
            check(c, kind, obj, m, X, E, int(f), L)
        c.op()
    for f in (0, 1, 2):
        check(c, kind, obj, m, X, E, f, L)


def many(c):
    """features ten and above, every feature with limits of its own; hundreds of instances"""
    kind = c.pick("method", [k for k in GLOBAL if k != "SHAP"])
    N, D = c.pick("N, D", [(40, 12), (611, 3)])
    i = np.arange(N)
    X = np.stack([((i * (2 * d + 3) + i // 3) % (9 + d)) / 4.0 - 0.5 * (d % 3) for d in range(D)], axis=1)
    m = gen.poly(D)
    L = np.stack([X.min(axis=0) + 0.375 * (np.arange(D) % 3) - 0.25, X.max(axis=0) + 0.375 * (np.arange(D) % 4 - 2)])
    E = own_effects(X)
    obj = make(kind, X, m, effects=E if kind == "RHALE-eff" else None, axis_limits=L.copy(), **({} if is_ale(kind) else dict(nof_instances="all")))
    done = [check(c, kind, obj, m, X, E, f, L, plot=f in (1, 10)) for f in ([10, 1, 11, 0] if D > 10 else [0, 2, 1])]
    if not any(done):
        raise Skip()


BOUNDS = ("up to 12 features and 611 instances; 8 methods x 2 data sets x 2 models x 6 x 6 limits (tighter, wider, touching, one-sided) on two features; all sequences of 3 (thorough: 4) "
          "calls over 3 features and then every feature")
ASSUMPTIONS = ["at least two bins with data (ALE) / five distinct values inside the limits (SHAP)"]


def scenarios(tier):
    return [Scenario("limits", one_feature), Scenario("sequences", sequences), Scenario("many-features-and-instances", many)]
