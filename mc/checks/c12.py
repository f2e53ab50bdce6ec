"""C12: choice of splits, stopping and pruning."""
import itertools

import numpy as np

from mc import gen, ref, regref
from mc.common import REGIONAL, make_regional, expect, same, binning, is_ale, is_pdp
from mc.engine import Scenario, Skip, Opt

SHAP = True

FIXED1 = ("fixed", dict(nof_bins=1, min_points_per_bin=0, cat_limit=0))
FIXED2 = ("fixed", dict(nof_bins=2, min_points_per_bin=2, cat_limit=0))
GREEDY = ("greedy", dict(init_nof_bins=4, min_points_per_bin=2, discount=0.25, cat_limit=0))
DP = ("dp", dict(max_nof_bins=3, min_points_per_bin=2, discount=0.25, cat_limit=0))


def fit_args(p, kind):
    kw = dict(heter_pcg_drop_thres=p["thres"], heter_small_enough=p["small"], max_depth=p["depth"],
              nof_candidate_splits_for_numerical=p["npos"], min_points_per_subregion=p["minp"],
              candidate_conditioning_features=p["foc"], split_categorical_features=p["split_cat"], centering=p["centering"])
    if is_ale(kind):
        kw["binning_method"] = binning(p["spec"])
    return kw


def levels_of(tree):
    return [[n for n in tree.nodes if n.level == k] for k in range(1 + max(n.level for n in tree.nodes))]


def verify(c, kind, m, X, E, foi, types, p, obj, axis_limits, exact=False):
    """follows the tree the library built, checking at every level that no other candidate is better"""
    full, pruned = obj.tree_full["feature_%d" % foi], obj.tree_pruned["feature_%d" % foi]
    D = X.shape[1]
    if (types[foi] == "cat" and not p["split_cat"]) or len(X) < p["minp"] or p["depth"] == 0:
        expect(full is None and pruned is None, "there must be no tree for this feature")
        return "none"
    expect(full is not None and pruned is not None, "no tree was built")
    foc = [f for f in range(D) if f != foi] if p["foc"] == "all" else list(p["foc"])
    h = regref.heterogeneity(kind, m, foi, axis_limits, p["minp"], p["centering"], p["spec"])
    cand = [(f, types[f], pos) for f in foc for pos in regref.positions(X, f, types[f], p["npos"])]
    use_e = kind.startswith("RHALE")
    regions = [(X, E if use_e else None)]
    lv = levels_of(full)
    tol = 2e-4 if "num" in kind else 1e-6
    hb = [h(*regions[0])]
    expect(len(lv[0]) == 1, "one root")
    same([lv[0][0].heterogeneity], hb, "heterogeneity of the root", tol)
    weighted = [hb[0]]
    for k in range(1, p["depth"] + 1):
        if any(len(x) < p["minp"] for x, _ in regions):
            expect(len(lv) == k, "splitting must stop after level %d: a region is below the minimum size", k - 1)
            break
        expect(len(lv) > k, "splitting stopped at level %d, depth %d was requested", k - 1, p["depth"])
        ns = lv[k]
        f, pos, typ = ns[0].foc, float(ns[0].foc_position), ns[0].foc_type
        expect(all(n.foc == f and float(n.foc_position) == pos for n in ns), "all regions of a level are split at the same position")
        expect(f in foc, "split on feature %r, which is not a candidate", f)
        expect(typ == types[f], "feature %d is %s", f, types[f])
        C = regref.level(regions, h, cand, hb)
        mine = [q for q in C if q[0] == f and abs(q[1] - pos) <= 1e-9 * max(1.0, abs(pos))]
        expect(mine, "position %r of feature %d is not a candidate", pos, f)
        best = max(q[3] for q in C)
        slack = tol * max(1.0, abs(best)) * (1 if abs(best) < 1e5 else 1e-3)
        if mine[0][3] < best - slack:
            b = [q for q in C if q[3] == best][0]
            expect(False, "level %d: split x%d at %r drops the heterogeneity by %r, x%d at %r would by %r", k, f, pos, mine[0][3], b[0], b[1], b[3])
        nxt, nb = [], []
        for (x, e) in regions:
            for idx in regref.halves(x, f, pos, typ):
                nxt.append((x[idx], None if e is None else e[idx]))
                nb.append(h(*nxt[-1]))
        expect(len(ns) == len(nxt), "%d nodes at level %d, expected %d", len(ns), k, len(nxt))
        same([n.heterogeneity for n in ns], nb, "heterogeneity of the nodes of level %d" % k, tol)
        expect([n.nof_instances for n in ns] == [len(x) for x, _ in nxt], "instance counts of level %d", k)
        regions, hb = nxt, nb
        weighted.append(mine[0][4])
    else:
        expect(len(lv) == p["depth"] + 1, "the tree has %d levels, depth %d was requested", len(lv) - 1, p["depth"])
    # pruning
    w = np.array(weighted)
    drops = [(w[i] - w[i + 1]) / w[i] if w[i] != 0 else float("nan") for i in range(len(w) - 1)]
    unsure = any(abs(d - p["thres"]) < max(10 * tol, 1e-9) and not (exact and d == p["thres"]) for d in drops) or abs(w[0] - p["small"]) < 10 * tol
    if any(np.isnan(d) or (abs(w[i]) < 1e-9) for i, d in enumerate(drops)):
        unsure = True
    keep = 0
    if not (w[0] >= regref.BIG or w[0] < p["small"]):
        while keep < len(drops) and drops[keep] > p["thres"]:
            keep += 1
    got = max(n.level for n in pruned.nodes)
    if not unsure:
        expect(got == keep, "%d levels kept, expected %d (relative drops %s, threshold %r)", got, keep, drops, p["thres"])
    a = [(n.name, n.level, n.nof_instances) for n in pruned.nodes]
    b = [(n.name, n.level, n.nof_instances) for n in full.nodes if n.level <= got]
    expect(a == b, "the pruned tree is not the top of the full tree: %s vs %s", a, b)
    return (got, keep, len(lv))


BASE = dict(thres=0.1, small=0.1, depth=1, npos=3, minp=2, foc="all", split_cat=False, centering=False, spec=FIXED1)


def exhaustive(c):
    """every conditioning column over {0,1,2} for 6 instances, several effect patterns, both split types"""
    n = 7 if c.tier == "thorough" else 6
    kind = c.pick("method", ["RHALE-eff", "PDP"])
    typ = c.pick("type", ["cat", "cont"])
    npos = c.pick("positions", [2, 3, 4] if typ == "cont" else [3])
    pat = c.pick("effects", [0, 1, 2, 3])
    col = c.pick("column", gen.columns([0.0, 1.0, 2.0], n))
    minp = c.pick("min points", [2, 3] if c.tier == "thorough" else [2 + pat % 2])
    if len(set(col)) < 2 and typ == "cont":
        raise Skip()
    base = [np.array([0, 1, 2, 3, 4, 5, 6.0][:n]), np.array([0, 1, 0, 1, 0, 1, 1.0][:n]), np.array([3, 2, 1, 0, 4, 5, 2.0][:n]), np.array([0, 0, 1, 2, 2, 1, 0.0][:n])][pat]
    X = np.stack([base, col], axis=1)
    E = np.stack([np.array([1, -1, 2, 2, -1, 1, 0.5][:n]) * (1 + pat) - 0.5 * base, np.zeros(n)], axis=1)
    m = gen.prod(2)
    p = dict(BASE, npos=npos, minp=minp, thres=0.25, small=0.05, centering=True if (kind == "PDP" and pat % 2) else False)
    obj = make_regional(kind, X, m, effects=E, feature_types=["cont", typ], nof_instances="all")
    obj.fit(0, **fit_args(p, kind))
    c.op()
    c.state(verify(c, kind, m, X, E, 0, ["cont", typ], p, obj, ref.limits_of(X)))


def shaped_sets():
    i = np.arange(24)
    X = np.stack([(i * 7 % 24) / 6.0, (i % 3) * 1.0, (i * 5 % 24) / 12.0 - 1.0], axis=1)
    Y = np.stack([np.cos(i * 1.0), (i * 5 % 8) * 0.5, (i % 2) * 1.0], axis=1)
    Z = np.stack([(i * 11 % 24) * 1.0, (i * 7 % 12) - 6.0, (i // 2) * 0.25, (i * i % 5) * 1.0], axis=1)
    return [gen.Data("24x3 categorical second", X), gen.Data("24x3 binary third", Y), gen.Data("24x4", Z)]


def many_set(N=48, D=12):
    """more than ten features, of every kind, and more instances than any default"""
    i = np.arange(N)
    cols = []
    for d in range(D):
        cols.append([(i * (7 + 2 * d) % (24 + d)) / 8.0 - 1.0, (i * (d + 1) // 3 % 3) * 1.0, ((i + d) * 5 % 8) * 0.25, ((i * i + d) % 7 > 3) * 1.0][d % 4])
    return gen.Data("%dx%d" % (N, D), np.stack(cols, axis=1))


def many(c):
    """features ten and above, models of many features, hundreds of instances"""
    kind = c.pick("method", [k for k in REGIONAL if k != "SHAP"])
    N, D = c.pick("N, D", [(48, 12), (200, 4), (650, 3)])
    X = many_set(N, D).X
    m = gen.poly(D)
    foi = c.pick("feature", [0, D - 1, D - 2] if D > 4 else [0])
    depth = c.pick("depth", [1, 2])
    foc = c.pick("conditioning", ["all"] + ([[k for k in (11, 1, 10, 3) if k != foi]] if D > 4 else []))
    if depth == 2 and (foc == "all" and D > 4 or N > 500):
        raise Skip()
    types = regref.types_of(X, 9)
    p = dict(BASE, depth=depth, foc=foc, npos=3, minp=5, thres=0.0, small=0.0, split_cat=True)
    if is_ale(kind):
        p["spec"] = FIXED2
    E = np.array([[((7 * i + 3 * k) % 11) / 4.0 - (i % 3) * 0.5 for k in range(D)] for i in range(N)]) if kind == "RHALE-eff" else m.jac(X)
    obj = make_regional(kind, X, m, effects=E, nof_instances="all", cat_limit=9)
    obj.fit(foi, **fit_args(p, kind))
    c.op()
    c.state(verify(c, kind, m, X, E, foi, types, p, obj, ref.limits_of(X)))


def shaped(c):
    kind = c.pick("method", REGIONAL)
    d = c.pick("data", shaped_sets()[:2] if kind == "SHAP" and c.tier == "quick" else shaped_sets())
    X = d.X
    D = X.shape[1]
    m = c.pick("model", [gen.cond(D, 1, 0.5), gen.poly(D), gen.prod(D)] + ([gen.additive(D)] if c.tier == "thorough" else []))
    depth = c.pick("depth", [1, 2, 0] + ([3] if D > 3 and c.tier == "thorough" else []))
    thin = c.tier == "quick"
    par = c.pick("parameters", [
        dict(), dict(npos=5, minp=4, thres=0.0, small=0.0), dict(foc=[2], thres=0.5, depth=1), dict(foc=[2, 1], npos=2, minp=9), dict(minp=12),
        dict(minp=30), dict(thres=0.9), dict(small=1e6), dict(centering=True), dict(centering="zero_start", thres=0.3), dict(npos=1, thres=-1e9)]
        if kind != "SHAP" or not thin else [dict(), dict(foc=[2, 1], npos=2, minp=9), dict(minp=12, thres=0.3)])
    foi = c.pick("feature", [0, 1, 2] if not thin else [0, 2])
    tp = c.pick("types", ["auto(4)", "auto(3)", "cont", "auto(4), split categorical"])
    types = ["cont"] * D if tp == "cont" else regref.types_of(X, 4 if "4" in tp else 3)
    if thin and par and (depth == 0 or foi == 2 and tp == "cont" or foi == 0 and "split" in tp):
        raise Skip()
    p = dict(BASE, **par)
    p["depth"] = par.get("depth", depth)
    p["split_cat"] = "split" in tp
    if isinstance(p["foc"], list):
        p["foc"] = [f for f in p["foc"] if f != foi]
    if p["depth"] > (D - 1 if p["foc"] == "all" else len(p["foc"])) or "depth" in par and depth != 1:
        raise Skip()
    if is_ale(kind):
        specs = [FIXED2, FIXED1] if kind == "ALE" else [GREEDY, FIXED2, DP]
        p["spec"] = c.pick("binning", specs if par in ({}, dict(minp=12)) or not thin else specs[:1])
    own = kind == "RHALE-eff"
    N = len(X)
    E = np.array([[((7 * i + 3 * k) % 11) / 4.0 - (i % 3) * 0.5 for k in range(D)] for i in range(N)]) if own else m.jac(X)
    kw = dict(feature_types=types) if tp == "cont" else dict(cat_limit=4 if "4" in tp else 3)
    obj = make_regional(kind, X, m, effects=E, nof_instances="all", **kw)
    obj.fit(foi, **fit_args(p, kind))
    c.op()
    c.state(verify(c, kind, m, X, E, foi, types, p, obj, ref.limits_of(X)))


def axis_limits(c):
    """heterogeneity of regional PDPs uses the given axis limits; many categories; feature subsets fitted together"""
    kind = c.pick("method", ["PDP", "dPDP-jac", "RHALE-jac", "ALE"])
    X = shaped_sets()[0].X
    m = gen.poly(3)
    L = ref.limits_of(X)
    L[:, 0] += c.pick("limits", [np.array([-0.5, 0.5]), np.array([0.4, -0.4]), np.array([0.0, 0.0])])
    ce = c.pick("centering", [False, True, "zero_start"])
    feats = c.pick("features", [0, [2, 0], "all"])
    cat = c.pick("declared", [["cont", "cat", "cont"], ["cat", "cat", "cat"], ["cont", "cont", "cat"]])
    lim = c.pick("cat_limit", [2, 40] if c.tier == "quick" else [2, 10, 40])
    p = dict(BASE, depth=2, centering=ce, npos=2, split_cat=True, thres=0.2)
    obj = make_regional(kind, X, m, nof_instances="all", axis_limits=L.copy(), feature_types=list(cat), cat_limit=lim)
    obj.fit(feats, **fit_args(p, kind))
    c.op()
    for f in ([feats] if isinstance(feats, int) else [0, 1, 2] if feats == "all" else feats):
        c.state(verify(c, kind, m, X, m.jac(X), f, cat, p, obj, L))


def staged(c):
    """every pattern of helpful and useless levels: effects that are parities of binary features, thresholds between their drops"""
    kind = c.pick("method", ["RHALE-eff", "PDP", "dPDP-jac", "ALE"])
    K = 3
    w = c.pick("weights", list(itertools.product([0.0, 1.0, 2.0], repeat=5)) if c.tier == "thorough" else [x for x in itertools.product([0.0, 2.0], repeat=5)] + [(1.0, 2.0, 1.0, 0.0, 2.0), (1.0, 0.0, 0.0, 2.0, 1.0)])
    depth = c.pick("depth", [3, 2])
    tp = c.pick("types", ["cont", "cat"])
    thres = c.pick("threshold", [0.1, 0.3])
    bits = np.array(list(itertools.product([0.0, 1.0], repeat=K)))
    rep = 4
    X = np.concatenate([np.concatenate([np.full((len(bits), 1), v), bits], axis=1) for v in np.arange(rep) * 0.5])
    X[:, 0] += 0.0078125 * np.arange(len(X))
    sets = [(1,), (2,), (2, 3), (1, 3), (1, 2, 3)]

    def slope(Z):
        s = np.zeros(len(Z))
        for a, q in zip(w, sets):
            s = s + a * np.prod([np.where(Z[:, k] > 0.5, 1.0, -1.0) for k in q], axis=0)
        return s
    m = gen.Model("parities %s" % (w,), lambda Z: Z[:, 0] * slope(Z), lambda Z: np.stack([slope(Z)] + [np.zeros(len(Z))] * K, axis=1))
    types = ["cont"] + [tp] * K
    p = dict(BASE, depth=depth, npos=1 if tp == "cont" else 3, minp=2, thres=thres, small=0.0, centering=True if kind == "PDP" else False)
    obj = make_regional(kind, X, m, feature_types=types, nof_instances="all")
    obj.fit(0, **fit_args(p, kind))
    c.op()
    c.state(verify(c, kind, m, X, m.jac(X), 0, types, p, obj, ref.limits_of(X)))


def useless(c):
    """a split that changes nothing at all is not important, even for a threshold of zero (all arithmetic is exact: dyadic effects,
    regions of equal size and equal range)"""
    kind = c.pick("method", ["RHALE-eff", "RHALE-jac"])
    tp = c.pick("types", ["cont", "cat"])
    w = c.pick("weights", list(itertools.product([0.0, 1.0, 2.0], repeat=3)))
    depth = c.pick("depth", [1, 2, 3])
    foc = c.pick("conditioning", [[3, 1, 2], [1, 2, 3]] if depth == 3 else [[3, 1], [2, 3], [3, 2, 1]] if depth == 2 else [[3], [2], [1], [3, 2]])
    bits = np.array(list(itertools.product([0.0, 1.0], repeat=3)))
    X = np.concatenate([np.concatenate([np.full((len(bits), 1), v), bits], axis=1) for v in np.arange(4) * 0.5])
    s = [np.where(X[:, k] > 0.5, 1.0, -1.0) for k in range(4)]
    E = np.zeros(X.shape)
    E[:, 0] = w[0] * s[1] + w[1] * s[2] + w[2] * s[1] * s[2]
    m = gen.Model("effects %s" % (w,), lambda Z: Z[:, 0] * 0.0, lambda Z: np.stack([w[0] * np.where(Z[:, 1] > 0.5, 1.0, -1.0) + w[1] * np.where(Z[:, 2] > 0.5, 1.0, -1.0)
                  + w[2] * np.where(Z[:, 1] > 0.5, 1.0, -1.0) * np.where(Z[:, 2] > 0.5, 1.0, -1.0)] + [np.zeros(len(Z))] * 3, axis=1))
    types = ["cont"] + [tp] * 3
    p = dict(BASE, depth=depth, npos=1 if tp == "cont" else 3, minp=2, thres=0.0, small=0.0, foc=foc)
    obj = make_regional(kind, X, m, effects=E, feature_types=types, nof_instances="all")
    obj.fit(0, **fit_args(p, kind))
    c.op()
    c.state(verify(c, kind, m, X, E, 0, types, p, obj, ref.limits_of(X), exact=True))


def scales(c):
    """the regions of a model do not depend on the unit of its output (scaling by powers of two is exact, ties included)"""
    kind = c.pick("method", [k for k in REGIONAL if k != "SHAP"])
    d = c.pick("data", shaped_sets()[:2] if c.tier == "quick" else shaped_sets())
    X = d.X
    D = X.shape[1]
    m = c.pick("model", [gen.cond(D, 2, 0.1), gen.cond(D, 1, 0.5), gen.poly(D)])
    unit = c.pick("unit of the output", [2.0 ** 34, 2.0 ** -34, 2.0 ** 60, 2.0 ** -60, -2.0 ** 47])
    par = c.pick("parameters", [dict(npos=5, minp=4, thres=0.05, small=0.0), dict(npos=4, minp=10, thres=-0.5, small=0.0, depth=2), dict(npos=3, minp=2, thres=0.2, small=0.25, centering=True)])
    tp = c.pick("types", ["auto", "cont"])
    f = c.pick("feature", [0, 2])
    if unit < 1 and kind.endswith("num"):
        raise Skip()
    types = ["cont"] * D if tp == "cont" else regref.types_of(X, 4)
    p = dict(BASE, **par)
    p["split_cat"] = True
    if is_ale(kind):
        p["spec"] = c.pick("binning", [FIXED2] if kind == "ALE" else [GREEDY, FIXED2] if c.tier == "quick" else [GREEDY, FIXED2, DP])
    trees = []
    for u in (1.0, unit):
        w = gen.Model("unit", lambda Z: u * m.f(Z), lambda Z: u * m.jac(Z))
        obj = make_regional(kind, X.copy(), w, effects=w.jac(X), nof_instances="all", feature_types=list(types))
        obj.fit(f, **fit_args(dict(p, small=p["small"] * abs(u)), kind))
        trees.append((obj.tree_full["feature_%d" % f], obj.tree_pruned["feature_%d" % f]))
        c.op()
    (a, ap), (b, bp) = trees
    full = [[(n.name, n.level, n.nof_instances, n.foc, n.comparison) for n in t.nodes] for t in (a, b)]
    possible = [all(n.heterogeneity < regref.BIG for n in a.nodes if n.level <= k) for k in range(1 + max(n.level for n in a.nodes))]
    depth = sum(possible)       # levels with only possible regions: what is chosen among impossible ones is not prescribed
    for q in (0, 1):
        full[q] = [n for n in full[q] if n[1] < depth]
    expect(full[0] == full[1], "regions %s, with outputs %r times as large %s", full[0], unit, full[1])
    same([n.heterogeneity / abs(unit) for n in b.nodes if n.level < depth], [n.heterogeneity for n in a.nodes if n.level < depth], "heterogeneity in its own unit", 1e-3 if kind.endswith("num") else 1e-9)
    kept = [[n.name for n in t.nodes] for t in (ap, bp)]
    expect(kept[0] == kept[1], "important regions %s, with outputs %r times as large %s", kept[0], unit, kept[1])
    c.state((len(kept[0]), depth, len(a.nodes)))


def impossible(c):
    """no split leaves enough instances: whatever is listed as found, nothing is important and nothing fails"""
    kind = c.pick("method", ["PDP", "RHALE-eff", "ALE", "dPDP-jac"])
    N = c.pick("instances", list(range(16, 80)) if c.tier == "quick" else list(range(16, 200)))
    k = c.pick("ones", [1, 2, 3, 4, 5, 6, 8, 11])
    homog = c.pick("effects", ["equal", "unequal"])
    if kind not in ("PDP", "RHALE-eff") and N % 4:
        raise Skip()
    i = np.arange(N)
    X = np.stack([np.sin(3 * i), (i < k) * 1.0, np.cos(5 * i)], axis=1)
    m = gen.Model("x0" if homog == "equal" else "x0 x1", lambda Z: Z[:, 0] * (1.0 if homog == "equal" else Z[:, 1]), lambda Z: np.stack([np.ones(len(Z)) if homog == "equal" else Z[:, 1], np.zeros(len(Z)) if homog == "equal" else Z[:, 0], np.zeros(len(Z))], axis=1))
    p = dict(BASE, npos=c.pick("positions", [20, 5]), minp=N, thres=0.0, small=-1.0)
    types = ["cont", "cat", "cont"]
    obj = make_regional(kind, X, m, effects=m.jac(X), nof_instances="all", feature_types=list(types))
    obj.fit(0, **fit_args(p, kind))
    c.op()
    full, pruned = obj.tree_full["feature_0"], obj.tree_pruned["feature_0"]
    expect([n.level for n in pruned.nodes] == [0], "important regions %s, none has %d instances", [n.name for n in pruned.nodes], N)
    for n in full.nodes[1:]:
        expect(n.foc in (1, 2) and any(abs(float(n.foc_position) - q) < 1e-9 for q in regref.positions(X, n.foc, types[n.foc], p["npos"])), "a region at x%r %r, which is no candidate", n.foc, n.foc_position)
    c.state(len(full.nodes))


BOUNDS = ("units of the output from 2^-60 to 2^60; 64 sizes x 8 category counts for which no split is possible; up to 12 features and 650 instances; splits that change nothing, threshold zero; effects that are every sum of five parities of three binary features (weights 0/2, thorough 0/1/2) x depth 2-3 x thresholds; every conditioning column over {0,1,2} for 6 (thorough: 7) instances x 4 effect patterns x split types x positions x minimum sizes; 3 data sets x 8 methods "
          "x models x depths 0-2 x 11 parameter sets x feature x feature types x binning methods; axis limits, declared types, feature selections")
ASSUMPTIONS = ["ties between candidate splits (within tolerance) may be resolved either way, as may drops equal to the threshold",
               "heterogeneities above 1e30 (the library's marker for impossible regions) are outside the domain",
               "bins chosen by greedy/dp inside a region are taken from the library (decided by C06/C07)"]


def scenarios(tier):
    return [Scenario("exhaustive-columns", exhaustive), Scenario("shaped", shaped), Scenario("staged-effects", staged), Scenario("useless-splits", useless), Scenario("limits-and-types", axis_limits),
            Scenario("many-features-and-instances", many), Scenario("units-of-the-output", scales), Scenario("no-split-possible", impossible)]
