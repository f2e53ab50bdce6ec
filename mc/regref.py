"""Reference for the search of sub-regions (independent of effector.partitioning)."""
import numpy as np

import effector.binning_methods as bm
from mc import ref
from mc.boot import effector
from mc.common import binning, is_pdp

BIG = 1e30


def types_of(X, cat_limit):
    return ["cat" if len(set(X[:, f])) < cat_limit else "cont" for f in range(X.shape[1])]


def positions(X, f, typ, n):
    if typ == "cat":
        return sorted(set(float(v) for v in X[:, f]))
    lo, hi = X[:, f].min(), X[:, f].max()
    return [lo + (j + 0.5) * (hi - lo) / n for j in range(n)]


def halves(x, f, pos, typ):
    """indices (into x) of the two regions"""
    a = [i for i in range(len(x)) if ((x[i, f] == pos) if typ == "cat" else (x[i, f] <= pos))]
    s = set(a)
    return np.array(a, dtype=int), np.array([i for i in range(len(x)) if i not in s], dtype=int)


def heterogeneity(kind, m, foi, axis_limits, min_points, centering=False, spec=None, k=100):
    """(rows, effects) -> number; the heterogeneity the global method defines, aggregated over the region's axis"""

    def h(x, e):
        if len(x) < min_points:
            return BIG
        lo, hi = x[:, foi].min(), x[:, foi].max()
        g = np.linspace(lo, hi, 10)
        if is_pdp(kind):
            y = x[ref.inside(x, axis_limits, foi)]
            curve = (lambda p: vec(m.f, y, foi, p)) if kind == "PDP" else (lambda p: vec(lambda z: m.jac(z)[:, foi], y, foi, p))
            if axis_limits[0, foi] >= axis_limits[1, foi]:
                return BIG
            yy = curve(g) - (0.0 if centering is False else ref.center_ice(curve, axis_limits[0, foi], axis_limits[1, foi], centering, k))
            return float(np.mean(np.std(yy, axis=1)))
        if kind == "SHAP":
            try:
                s = effector.ShapDP(x.copy(), m.f, nof_instances="all")
                return float(np.mean(s.eval(foi, g, heterogeneity=True)[1]))
            except Exception:
                return BIG
        if lo == hi:
            return BIG
        L = ref.limits_of(x)
        if spec[0] == "fixed":
            p = spec[1]
            edges = ref.fixed_edges(x[:, foi], lo, hi, p["nof_bins"], p["min_points_per_bin"], p["cat_limit"])
        else:
            try:
                edges = bm.find_limits(x.copy(), e.copy(), foi, L, binning(spec)).limits
            except Exception:
                return BIG
            edges = None if edges is False else edges
        if edges is None:
            return BIG
        eff = ref.ale_effects(m.f, x, foi, edges) if kind == "ALE" else e[:, foi]
        R = ref.AleRef(x[:, foi], eff, edges, lo, hi)
        if not R.defined():
            return BIG
        return float(R.heter(np.array([hi]))[0])
    return h


def vec(f, X, feat, p):
    """ICE curves, all at once"""
    Z = np.repeat(X[None], len(p), axis=0)
    Z[:, :, feat] = np.asarray(p)[:, None]
    return f(Z.reshape(-1, X.shape[1])).reshape(len(p), len(X))


def level(regions, h, cand, hb):
    """all candidate splits of one level: [(feature, position, type, drop, weighted heterogeneity)]"""
    out = []
    for f, typ, pos in cand:
        ns, hs, par = [], [], []
        for (x, e), before in zip(regions, hb):
            for idx in halves(x, f, pos, typ):
                ns.append(len(idx))
                hs.append(h(x[idx], None if e is None else e[idx]))
                par.append(before)
        w = np.array(ns) + 1.0
        w = w / w.sum()
        out.append((f, pos, typ, float(np.sum((np.array(par) - np.array(hs)) * w)), float(np.sum(w * np.array(hs)))))
    return out
