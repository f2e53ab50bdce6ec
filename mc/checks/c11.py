"""C11: region trees partition the instances truthfully."""
import re

import numpy as np

from mc import gen, ref, regref
from mc.common import REGIONAL, make_regional, expect, same, binning, is_ale
from mc.checks.c12 import fit_args, BASE, FIXED1, FIXED2, shaped_sets, many_set
from mc.engine import Scenario, Skip, Opt

SHAP = True


def key(x, e):
    a = np.asarray(x, float) if e is None else np.concatenate([np.asarray(x, float), np.asarray(e, float)], axis=1)
    return a[np.lexsort(a.T)]


CONDITION = re.compile(r"^(.*?)\s+(==|!=|<=|>|<|>=)\s+(\S+)$")


def holds(v, op, pos):
    return {"==": v == pos, "!=": v != pos, "<=": v <= pos, ">": v > pos, "<": v < pos, ">=": v >= pos}[op]


def check_tree(tree, X, E, foi, names, scale=None, tol=1e-9):
    """tree: as fitted (positions in data units); `scale`: names are in rescaled units"""
    N = len(X)
    nodes = tree.nodes
    expect([n.idx for n in nodes] == list(range(len(nodes))), "node ids are %s", [n.idx for n in nodes])
    roots = [n for n in nodes if n.parent_node is None]
    expect(len(roots) == 1 and roots[0].level == 0 and roots[0].idx == 0, "one root with id 0")
    r = roots[0]
    expect(r.name == names[foi], "root is called %r", r.name)
    expect(len({n.name for n in nodes}) == len(nodes), "node names are not distinct")
    for n in nodes:
        x, e = n.data["data"], n.data["data_effect"]
        if n is r:
            want = (X, E)
        else:
            p = n.parent_node
            expect(p in nodes and p.level == n.level - 1, "parent of node %d", n.idx)
            px, pe = np.asarray(p.data["data"]), p.data["data_effect"]
            expect(n.name.startswith(p.name), "name %r does not extend its parent's %r", n.name, p.name)
            last = n.name[len(p.name):]
            sep = " | " if n.level == 1 else " and "
            expect(last.startswith(sep), "name %r does not continue %r with %r", n.name, p.name, sep)
            mt = CONDITION.match(last[len(sep):])
            expect(mt is not None, "no condition in name %r", n.name)
            who, op, num = mt.group(1).strip(), mt.group(2), float(mt.group(3))
            expect(who == names[n.foc], "name %r is about %r, the node was split on %r", n.name, who, names[n.foc])
            shown = n.foc_position if scale is None else n.foc_position * scale[n.foc]["std"] + scale[n.foc]["mean"]
            expect(abs(num - shown) <= 0.005 + 1e-9 * abs(shown), "name %r, split position %r", n.name, shown)
            expect(op == n.comparison, "name %r, comparison %r", n.name, n.comparison)
            expect((op in ("==", "!=")) == (n.foc_type == "cat"), "comparison %r on a %s feature", op, n.foc_type)
            sel = np.array([holds(v, op, n.foc_position) for v in px[:, n.foc]], dtype=bool)
            want = (px[sel], None if pe is None else np.asarray(pe)[sel])
        same(np.asarray(x).shape, want[0].shape, "shape of the instances of %r" % n.name)
        expect((e is None) == (want[1] is None), "effects of %r", n.name)
        if e is not None:
            same(np.asarray(e).shape, want[1].shape, "shape of the effects of %r" % n.name)
        same(key(x, e), key(*want), "instances (and effects) of %r" % n.name, tol)
        expect(n.nof_instances == len(want[0]) and n.data["nof_instances"] == len(want[0]), "%r reports %d instances, holds %d", n.name, n.nof_instances, len(want[0]))
        same([n.weight, n.data["weight"]], [len(want[0]) / N] * 2, "weight of %r" % n.name, 1e-12)
        kids = [k for k in nodes if k.parent_node is n]
        expect(len(kids) in (0, 2), "%r has %d children", n.name, len(kids))
        if kids:
            expect({k.comparison for k in kids} in ({"==", "!="}, {"<=", ">"}), "children of %r are compared by %s", n.name, [k.comparison for k in kids])
            expect(kids[0].nof_instances + kids[1].nof_instances == n.nof_instances, "children of %r do not make up their parent", n.name)
            expect(len({k.foc for k in kids}) == 1 and len({float(k.foc_position) for k in kids}) == 1, "children of %r are split differently", n.name)


def check_path(name, node, names, foi, scale):
    """the whole name in rescaled units: every condition on the way from the root"""
    path = []
    n = node
    while n.parent_node is not None:
        path.insert(0, n)
        n = n.parent_node
    want = names[foi]
    expect(name.startswith(want), "%r should start with %r", name, want)
    rest = name[len(want):]
    for k, n in enumerate(path):
        sep = " | " if k == 0 else " and "
        head = sep + names[n.foc]
        expect(rest.startswith(head), "%r should go on with %r", name, head)
        rest = rest[len(head):]
        mt = re.match(r"\s+(==|!=|<=|>)\s+(\S+)", rest)
        expect(mt is not None and mt.group(1) == n.comparison, "%r: comparison %r expected after %r", name, n.comparison, head)
        shown = n.foc_position * scale[n.foc]["std"] + scale[n.foc]["mean"]
        expect(abs(float(mt.group(2)) - shown) <= 0.005 + 1e-9 * abs(shown), "rescaled name %r, split position %r", name, shown)
        rest = rest[mt.end():]
    expect(rest.strip() == "", "%r says more than its conditions", name)


def check_all(c, obj, X, E, foi, names, tol=1e-9):
    f = "feature_%d" % foi
    n = 0
    for tree in (obj.tree_full[f], obj.tree_pruned[f]):
        if tree is not None:
            check_tree(tree, X, E, foi, names, tol=tol)
            n += len(tree.nodes)
    if obj.tree_pruned[f] is not None:
        for node in obj.tree_pruned[f].nodes:
            d, e, name = obj.get_node_info(foi, node.idx)
            expect(name == node.name, "get_node_info(%d) is called %r, the node %r", node.idx, name, node.name)
            same(key(d, e), key(node.data["data"], node.data["data_effect"]), "get_node_info(%d)" % node.idx, tol)
            c.op()
        D = X.shape[1]
        for scale in ([{"mean": 5.0 + k, "std": 1000.0 * (k + 1)} for k in range(D)], [{"mean": -3.25, "std": 0.5 / (k + 1)} for k in range(D)]):
            for node in obj.tree_pruned[f].nodes:
                d, e, name = obj.get_node_info(foi, node.idx, scale)
                same(key(d, e), key(node.data["data"], node.data["data_effect"]), "get_node_info(%d), rescaled" % node.idx, tol)
                check_path(name, node, names, foi, scale)
                c.op()
        try:
            obj.get_node_info(foi, len(obj.tree_pruned[f].nodes))
        except AssertionError:
            pass
        else:
            expect(False, "get_node_info accepts an id that does not exist")
    c.state(n, [x.name for x in (obj.tree_full[f].nodes if obj.tree_full[f] is not None else [])])


def exhaustive(c):
    """split points hit by instances: every pair of conditioning columns over small grids, depth 2"""
    n = 6
    kind = c.pick("method", ["RHALE-eff", "PDP"])
    types = c.pick("types", [["cont"] * 3, ["cont", "cat", "cont"], ["cont", "cat", "cat"]])
    npos = c.pick("positions", [2, 4, 1])
    a = c.pick("first column", [np.array(v, float) for v in ([0, 0, 1, 1, 2, 2], [0, 1, 2, 3, 4, 2], [0, 1, 0, 1, 0, 1], [4, 0, 2, 2, 2, 0])])
    b = c.pick("second column", gen.columns([0.0, 1.0, 2.0], n) if c.tier == "thorough" else gen.columns([0.0, 1.0, 2.0], n)[::3])
    X = np.stack([np.array([0, 1, 2, 3, 4, 5.0])[np.array([3, 1, 4, 0, 5, 2])], a, b], axis=1)
    i = np.arange(n)
    E = np.stack([(i * 5 % 6) * 1.5 - 2, i * 0.5, -i * 1.0], axis=1)
    m = gen.poly(3)
    p = dict(BASE, npos=npos, minp=2, depth=2, small=0.0, thres=-10.0 if c.tier == "quick" else 0.0)
    obj = make_regional(kind, X, m, effects=E, feature_types=list(types), nof_instances="all")
    obj.fit(0, **fit_args(p, kind))
    c.op()
    check_all(c, obj, X, E if kind != "PDP" else None, 0, ["x_0", "x_1", "x_2"])


def shaped(c):
    kind = c.pick("method", REGIONAL)
    d = c.pick("data", shaped_sets())
    X = d.X
    D = X.shape[1]
    m = c.pick("model", [gen.cond(D, 1, 0.5), gen.poly(D)])
    depth = c.pick("depth", [2, 1] + ([3] if D > 3 else []))
    foi = c.pick("feature", list(range(D)))
    tp = c.pick("types", ["auto(4)", "cont"])
    nm = c.pick("names", [None, ["speed (km/h)", "a b", "x > 3 and y", "temp"][:D]])
    par = c.pick("parameters", [dict(thres=0.0, small=0.0), dict(minp=6, thres=0.05)])
    if kind == "SHAP" and c.tier == "quick" and (depth > 1 or D > 3 or foi == 1 or nm is not None):
        raise Skip()
    own = kind == "RHALE-eff"
    N = len(X)
    E = np.array([[((7 * i + 3 * k) % 11) / 4.0 - (i % 3) * 0.5 for k in range(D)] for i in range(N)]) if own else m.jac(X)
    p = dict(BASE, depth=depth, split_cat=True, **{})
    p.update(par)
    p["spec"] = FIXED2
    kw = dict(feature_types=["cont"] * D) if tp == "cont" else dict(cat_limit=4)
    if nm is not None:
        kw["feature_names"] = list(nm)
    obj = make_regional(kind, X, m, effects=E, nof_instances="all", **kw)
    obj.fit(foi, **fit_args(p, kind))
    c.op()
    names = nm if nm is not None else ["x_%d" % k for k in range(D)]
    e = None if not kind.startswith("RHALE") else E
    if kind == "RHALE-num":
        e = obj.instance_effects
        same(e, ref.fd_jac(m.f, X), "numerical effects", 1e-4)
    check_all(c, obj, X, e, foi, names)


def many(c):
    """features ten and above, hundreds of instances"""
    kind = c.pick("method", [k for k in REGIONAL if k != "SHAP"])
    N, D = c.pick("N, D", [(48, 12), (650, 3)])
    X = many_set(N, D).X
    m = gen.poly(D)
    foi = c.pick("feature", [0, D - 1, D - 2] if D > 4 else [0])
    depth = c.pick("depth", [2, 3] if D > 4 else [1])
    foc = [k for k in (11, 1, 10, 3) if k != foi] if D > 4 else "all"
    nm = c.pick("names", [None, ["feature %d" % (k * 7 % D) for k in range(D)]])
    own = kind == "RHALE-eff"
    E = np.array([[((7 * i + 3 * k) % 11) / 4.0 - (i % 3) * 0.5 for k in range(D)] for i in range(N)]) if own else m.jac(X)
    obj = make_regional(kind, X, m, effects=E, nof_instances="all", cat_limit=9, **({} if nm is None else dict(feature_names=list(nm))))
    obj.fit(foi, **fit_args(dict(BASE, depth=depth, foc=foc, npos=2, minp=3, thres=-1e9, small=-1.0, split_cat=True, spec=FIXED2), kind))
    c.op()
    e = None if not kind.startswith("RHALE") else obj.instance_effects if kind == "RHALE-num" else E
    check_all(c, obj, X, e, foi, nm or ["x_%d" % k for k in range(D)])


def subset(c):
    """the root of a subsampled effect holds the selected instances with THEIR effects"""
    kind = c.pick("method", ["RHALE-eff", "RHALE-jac", "ALE", "PDP"])
    n = c.pick("nof_instances", [20, 12, 24])
    depth = c.pick("depth", [2, 1])
    c.pick("repetition", list(range(6)))
    X = shaped_sets()[0].X
    N, D = X.shape
    m = gen.poly(D)
    E = np.array([[((7 * i + 3 * k) % 11) / 4.0 - (i % 3) * 0.5 for k in range(D)] for i in range(N)]) if kind == "RHALE-eff" else m.jac(X)
    obj = make_regional(kind, X, m, effects=E, nof_instances=n, feature_types=["cont"] * D)
    obj.fit(0, **fit_args(dict(BASE, depth=depth, spec=FIXED2, small=0.0, thres=0.0), kind))
    c.op()
    tree = obj.tree_full["feature_0"]
    x, e = tree.nodes[0].data["data"], tree.nodes[0].data["data_effect"]
    expect(len(x) == n, "root holds %d instances, expected %d", len(x), n)
    use_e = kind.startswith("RHALE")
    rows = {tuple(r): i for i, r in enumerate(X)}
    ids = [rows.get(tuple(r)) for r in np.asarray(x)]
    expect(None not in ids and len(set(ids)) == n, "the root's rows are not distinct rows of the data")
    if use_e:
        same(e, E[ids], "effects of the root's instances")
    check_tree(tree, X[ids], E[ids] if use_e else None, 0, ["x_0", "x_1", "x_2"])
    c.state(sorted(ids))


BOUNDS = ("4 x 729 (quick: 243) pairs of conditioning columns x types x positions at depth 2; 3 data sets x 8 methods x depth 1-3 x feature x types x names; "
          "up to 12 features and 650 instances; subsampled effects; names also in two other units")
ASSUMPTIONS = ["names show positions rounded to two decimals"]


def scenarios(tier):
    return [Scenario("split-points-hit", exhaustive), Scenario("shaped", shaped), Scenario("subsampled", subset), Scenario("many-features-and-instances", many)]
