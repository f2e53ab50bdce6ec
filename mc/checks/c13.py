"""C13: a region's effect is the global effect of exactly that region's instances."""
import numpy as np

from mc import gen, ref
from mc.common import REGIONAL, CENTERINGS, make, make_regional, expect, same, binning, is_ale, is_pdp, same_snapshot
from mc.checks.c12 import fit_args, BASE, FIXED1, FIXED2, GREEDY, DP, shaped_sets, many_set
from mc.engine import Scenario, Skip, Opt
from mc.history import Op, observe, difference, drawn

SHAP = True


def chain(node):
    out = []
    while node.parent_node is not None:
        out.append(node)
        node = node.parent_node
    return out[::-1]


def rows_of(node, X):
    """indices of the instances the node's conditions select"""
    ok = np.ones(len(X), dtype=bool)
    for n in chain(node):
        v, p = X[:, n.foc], float(n.foc_position)
        ok &= {"==": v == p, "!=": v != p, "<=": v <= p, ">": v > p}[n.comparison]
    return np.nonzero(ok)[0]


def reference(kind, X, E, ids, m, spec, foi, centering, names=None, target=None):
    o = make(kind, X[ids].copy(), m, effects=E[ids].copy(), nof_instances="all", feature_names=names, target_name=target)
    if is_ale(kind):
        o.fit(foi, binning_method=spec if isinstance(spec, str) else binning(spec), centering=centering)
    return o


def positions(X, ids, foi):
    if len(ids) == 0:
        return np.array([0.0])
    lo, hi = X[ids, foi].min(), X[ids, foi].max()
    return np.array([hi, lo, 0.5 * (lo + hi), lo + 0.3 * (hi - lo), lo + 0.9 * (hi - lo)])


def compare(kind, obj, X, E, m, p, foi, centering, names, target, plots, c, styles=True):
    tree = obj.tree_pruned["feature_%d" % foi]
    tol = 1e-6 if kind == "SHAP" else 1e-5 if kind.endswith("num") else 1e-9
    for node in tree.nodes:
        ids = rows_of(node, X)
        xs = positions(X, ids, foi)
        for het in (True, False):
            got = observe(Op("", lambda o: o.eval(foi, node.idx, xs.copy(), het, centering)), obj)
            want = observe(Op("", lambda o: reference(kind, X, E, ids, m, p["spec"], foi, centering).eval(foi, xs, het, centering)), None)
            d = difference(got, want, tol)
            expect(d is None, "%r (%d instances), eval with heterogeneity=%s, centering=%s: %s", node.name, len(ids), het, centering, d)
            c.op()
        if plots:
            nn = list(names) if names is not None else ["x_%d" % k for k in range(X.shape[1])]
            nn[foi] = node.name
            hs = {"PDP": ["ice", "std"], "SHAP": ["shap_values", "std"]}.get(kind, ["ice", False] if "PDP" in kind else [True, False])
            for h in hs:
                got = observe(Op("", lambda o: drawn(lambda: o.plot(foi, node.idx, heterogeneity=h, centering=centering, y_limits=[-7, 9]))), obj)
                want = observe(Op("", lambda o: drawn(lambda: reference(kind, X, E, ids, m, p["spec"], foi, centering, nn, target or "y").plot(
                    foi, heterogeneity=h, centering=centering, y_limits=[-7, 9]))), None)
                d = difference(got, want, tol)
                expect(d is None, "%r, plot with heterogeneity=%s, centering=%s: %s", node.name, h, centering, d)
                c.op()
    return [(n.name, n.nof_instances) for n in tree.nodes]


def main(c):
    kind = c.pick("method", REGIONAL)
    quick = c.tier == "quick"
    d = c.pick("data", shaped_sets()[:2] if kind == "SHAP" and quick else shaped_sets())
    X = d.X
    D = X.shape[1]
    m = c.pick("model", [gen.cond(D, 1, 0.5), gen.poly(D)])
    depth = c.pick("depth", [2, 1])
    foi = c.pick("feature", [0, 2] if quick else list(range(D)))
    ce = c.pick("centering", CENTERINGS)
    nm = c.pick("names", [None, ["speed (km/h)", "a b", "x > 3 and y", "temp"][:D]] if not quick or ce is True else [None])
    if kind == "SHAP" and quick and (depth == 2 and foi or m.mc_name == "poly" and depth == 1):
        raise Skip()
    p = dict(BASE, depth=depth, split_cat=True, thres=-1e9, small=-1.0, minp=4)
    if is_ale(kind):
        p["spec"] = c.pick("binning", [FIXED2, FIXED1] if kind == "ALE" else [GREEDY, DP, FIXED2])
    E = np.array([[((7 * i + 3 * k) % 11) / 4.0 - (i % 3) * 0.5 for k in range(D)] for i in range(len(X))]) if kind == "RHALE-eff" else m.jac(X)
    if kind == "RHALE-num":
        E = ref.fd_jac(m.f, X)
    kw = dict(feature_names=list(nm), target_name="price") if nm is not None else {}
    obj = make_regional(kind, X, m, effects=E, nof_instances="all", cat_limit=4, **kw)
    obj.fit(foi, **fit_args(p, kind))
    c.state(compare(kind, obj, X, E, m, p, foi, ce, nm, "price" if nm else None, nm is not None or not quick, c))


def names_as_options(c):
    """the default binning and the binning names"""
    kind = c.pick("method", ["ALE", "RHALE-jac", "RHALE-eff"])
    i = np.arange(48)
    X = np.stack([(i * 7 % 48) / 10.0, (i * 11 % 48) / 20.0 - 1.0, (i % 2) * 1.0], axis=1)
    m = gen.poly(3)
    ce = c.pick("centering", [False, True])
    b = c.pick("binning", [None, "fixed"] + (["greedy", "dp"] if kind != "ALE" else []))
    E = m.jac(X) * (1 if kind != "RHALE-eff" else -0.5)
    obj = make_regional(kind, X, m, effects=E, nof_instances="all")
    kw = {} if b is None else {"binning_method": b}
    obj.fit(0, heter_pcg_drop_thres=-1e9, heter_small_enough=-1.0, max_depth=1, nof_candidate_splits_for_numerical=1, **kw)
    # names stand for the option objects with default parameters
    spec = {None: ("fixed", dict(nof_bins=20, min_points_per_bin=0)) if kind == "ALE" else ("greedy", {}),
            "fixed": ("fixed", {}), "greedy": ("greedy", {}), "dp": ("dp", {})}[b]
    p = dict(BASE, spec=spec)
    c.state(compare(kind, obj, X, E, m, p, 0, ce, None, None, True, c))


def large(c):
    """regions with more instances than any default subsample"""
    kind = c.pick("method", ["PDP", "dPDP-jac", "ALE", "RHALE-jac", "RHALE-eff"])
    n = c.pick("instances", [330, 1100])
    i = np.arange(n)
    X = np.stack([(i * 7 % 97) / 10.0, (i * 11 % 89) / 20.0 - 1.0, (i % 2) * 1.0], axis=1)
    m = gen.poly(3)
    E = m.jac(X)
    ce = c.pick("centering", [False, "zero_start"])
    p = dict(BASE, thres=-1e9, small=-1.0, npos=1, foc=[2], spec=FIXED2)
    obj = make_regional(kind, X, m, effects=E, nof_instances="all")
    obj.fit(0, **fit_args(p, kind))
    c.state(compare(kind, obj, X, E, m, p, 0, ce, None, None, c.tier == "thorough", c))


def many(c):
    """features ten and above"""
    kind = c.pick("method", ["PDP", "dPDP-jac", "ALE", "RHALE-jac", "RHALE-eff"])
    D = 12
    X = many_set(48, D).X
    m = gen.poly(D)
    foi = c.pick("feature", [0, 11, 10])
    nm = c.pick("names", [None, ["feature %d" % (k * 7 % D) for k in range(D)]])
    E = np.array([[((7 * i + 3 * k) % 11) / 4.0 - (i % 3) * 0.5 for k in range(D)] for i in range(len(X))]) if kind == "RHALE-eff" else m.jac(X)
    p = dict(BASE, depth=2, thres=-1e9, small=-1.0, npos=2, minp=4, foc=[k for k in (11, 1, 10, 3) if k != foi], spec=FIXED2, split_cat=True)
    obj = make_regional(kind, X, m, effects=E, nof_instances="all", cat_limit=9, **({} if nm is None else dict(feature_names=list(nm), target_name="price")))
    obj.fit(foi, **fit_args(p, kind))
    c.state(compare(kind, obj, X, E, m, p, foi, False, nm, "price" if nm else None, nm is not None, c))


def deep(c):
    """regions of the third level"""
    kind = c.pick("method", [k for k in REGIONAL if k != "SHAP"])
    i = np.arange(96)
    X = np.stack([(i * 7 % 96) / 16.0, (i % 2) * 1.0, np.cos(5.0 * i), (i * 11 % 96) / 12.0 - 1.0], axis=1)
    m = c.pick("model", [gen.cond(4, 1, 0.5), gen.poly(4)])
    foi = c.pick("feature", [0, 3])
    ce = c.pick("centering", [False, True])
    nm = c.pick("names", [None, ["b", "a", "d", "c"]])
    if nm and kind not in ("PDP", "ALE", "RHALE-eff"):
        raise Skip()
    E = np.array([[((7 * q + 3 * k) % 11) / 4.0 - (q % 3) * 0.5 for k in range(4)] for q in i]) if kind == "RHALE-eff" else ref.fd_jac(m.f, X) if kind == "RHALE-num" else m.jac(X)
    p = dict(BASE, depth=3, thres=-1e9, small=-1.0, npos=2, minp=4, spec=FIXED2, split_cat=True)
    obj = make_regional(kind, X, m, effects=E, nof_instances="all", cat_limit=4, **({} if nm is None else dict(feature_names=list(nm), target_name="price")))
    obj.fit(foi, **fit_args(p, kind))
    c.state(compare(kind, obj, X, E, m, p, foi, ce, nm, "price" if nm else None, nm is not None, c))


BOUNDS = ("trees of three levels (15 regions); 8 methods x 3 data sets x 2 models x depths 1-2 x features x 4 centerings x names x binning methods: evaluation of every node with and without heterogeneity, and plots in two "
          "styles; default and named binning; regions of up to 1100 instances; 12 features")
ASSUMPTIONS = ["the global method itself is decided by C01-C05; here regional answers are compared with it on the instances selected by the node's conditions"]


def scenarios(tier):
    return [Scenario("every-node", main), Scenario("named-binning", names_as_options), Scenario("large-regions", large), Scenario("many-features", many), Scenario("three-levels", deep)]
