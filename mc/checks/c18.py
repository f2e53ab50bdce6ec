"""C18: printed reports state the numbers of the tree."""
import re

import numpy as np

from mc import gen, ref, regref
from mc.common import REGIONAL, make_regional, expect, same, is_ale
from mc.checks.c12 import fit_args, BASE, FIXED1, FIXED2, shaped_sets, many_set
from mc.checks.c13 import rows_of
from mc.engine import Scenario, Skip, Opt
from mc.history import printed

SHAP = True
NUM = r"(-?(?:\d+\.?\d*(?:e[+-]?\d+)?|nan|inf))"
NODE = re.compile(r"^(\s*)Node id:\s*(\d+),\s*name:\s*(.*?),\s*heter:\s*%s\s*\|\|\s*nof_instances:\s*(\d+)\s*\|\|\s*weight:\s*%s\s*$" % (NUM, NUM))
LEVEL = re.compile(r"^(\s*)Level\s*(\d*),\s*heter:\s*%s(?:\s*\|\|\s*heter drop:\s*%s\s*\(%s\s*%%\))?\s*$" % (NUM, NUM, NUM))
SCALE = [{"mean": 1.25, "std": 2.0}, {"mean": -3.0, "std": 0.5}, {"mean": 100.0, "std": 10.0}, {"mean": 0.0, "std": 7.0}]
SCALE += [{"mean": 10.0 * k - 31.5, "std": 0.25 * k} for k in range(4, 16)]


def near(text, value, what):
    expect(abs(float(text) - value) <= 0.00501 + 1e-9 * abs(value), "%s is printed as %s, it is %r", what, text, value)


def scaled(v, f, scale):
    return v if scale is None else v * scale[f]["std"] + scale[f]["mean"]


def levels(tree):
    return [[n for n in tree.nodes if n.level == k] for k in range(1 + max(n.level for n in tree.nodes))]


def numbers(n, X):
    """(instances, weight) of a node, recomputed from its conditions"""
    k = len(rows_of(n, X))
    return k, k / len(X)


def check_names(tree, names, foi, scale, shown):
    """shown: {idx: printed name}"""
    for n in tree.nodes:
        text = shown[n.idx]
        if n.parent_node is None:
            expect(text == names[foi], "root is printed as %r", text)
            continue
        parent = shown[n.parent_node.idx]
        expect(text.startswith(parent), "name %r does not extend %r", text, parent)
        mt = re.match(r"^ (?:\||and) (.*?)\s+(==|!=|<=|>)\s+(\S+)$", text[len(parent):])
        expect(mt is not None, "no condition in %r", text)
        expect(mt.group(1) == names[n.foc] and mt.group(2) == n.comparison, "condition of %r, the split is %s %s", text, names[n.foc], n.comparison)
        near(mt.group(3), scaled(float(n.foc_position), n.foc, scale), "position in %r" % text)


def check_show(text, feats, trees, names, scale, X):
    parts = re.split(r"^Feature (\d+) - Full partition tree:\s*$", text, flags=re.M)
    expect(parts[0].strip() == "", "unexpected text %r", parts[0])
    expect([int(v) for v in parts[1::2]] == feats, "features %s are reported, asked for %s", parts[1::2], feats)
    for f, body in zip(feats, parts[2::2]):
        tree = trees[f]
        top, _, low = body.partition("Feature %d - Statistics per tree level:" % f)
        if tree is None:
            expect("No splits found" in top and "No splits found" in low and not NODE.search(body), "feature %d has no tree: %r", f, body)
            continue
        nodes = [m for m in map(NODE.match, top.splitlines()) if m]
        expect(sorted(int(m.group(2)) for m in nodes) == [n.idx for n in tree.nodes], "nodes %s are printed, the tree has %s", [m.group(2) for m in nodes], [n.idx for n in tree.nodes])
        byidx = {n.idx: n for n in tree.nodes}
        seen, depth = [], {}
        for m in nodes:
            n = byidx[int(m.group(2))]
            k, w = numbers(n, X)
            near(m.group(4), n.heterogeneity, "heterogeneity of node %d" % n.idx)
            expect(int(m.group(5)) == k, "node %d is printed with %s instances, it has %d", n.idx, m.group(5), k)
            near(m.group(6), w, "weight of node %d" % n.idx)
            depth.setdefault(n.level, set()).add(len(m.group(1)))
            if n.parent_node is not None:
                expect(n.parent_node.idx in seen, "node %d is printed before its parent", n.idx)
                anc = [b for b in seen if byidx[b].level < n.level][-1]
                expect(anc == n.parent_node.idx, "node %d is printed below node %d, its parent is %d", n.idx, anc, n.parent_node.idx)
            seen.append(n.idx)
        ind = [depth[k] for k in sorted(depth)]
        expect(all(len(v) == 1 for v in ind) and sorted(min(v) for v in ind) == [min(v) for v in ind] and len({min(v) for v in ind}) == len(ind), "indentation %s", depth)
        check_names(tree, names, f, scale, {int(m.group(2)): m.group(3) for m in nodes})
        lv = [m for m in map(LEVEL.match, low.splitlines()) if m]
        L = levels(tree)
        expect([int(m.group(2) or 0) for m in lv] == list(range(len(L))), "levels %s are printed, the tree has %d", [m.group(2) for m in lv], len(L))
        h = [sum(n.heterogeneity * numbers(n, X)[1] for n in ns) for ns in L]
        for k, m in enumerate(lv):
            near(m.group(3), h[k], "heterogeneity of level %d" % k)
            if k:
                near(m.group(4), h[k - 1] - h[k], "drop of level %d" % k)
                if h[k - 1] != 0:
                    near(m.group(5), 100 * (h[k - 1] - h[k]) / h[k - 1], "relative drop of level %d" % k)
            else:
                expect(m.group(4) is None, "a drop at the root")


def check_describe(text, feats, trees, full, names, scale, X, important):
    """split into blocks per feature"""
    lines = [l for l in text.splitlines() if l.strip()]
    blocks, cur = [], None
    for l in lines:
        if re.match(r"^(Important|All) splits for feature |^No important splits", l):
            cur = [l]
            blocks.append(cur)
        else:
            expect(cur is not None, "unexpected text %r", l)
            cur.append(l)
    want = [f for f in feats if full[f] is not None]
    expect(len(blocks) == len(want), "%d features are described, expected %s", len(blocks), want)
    for f, b in zip(want, blocks):
        L = levels(trees[f])
        if important and len(L) == 1:
            expect(b == ["No important splits found for feature %s" % f] or b == ["No important splits found for feature %s" % names[f]], "unsplit feature %d: %s", f, b)
            continue
        expect(b[0] == ("Important" if important else "All") + " splits for feature %s" % names[f], "header %r of feature %d", b[0], f)
        rest = "\n".join(b[1:])
        chunks = re.split(r"^- On feature (.*) \((cat|cont)\)$", rest, flags=re.M)
        expect(len(chunks) // 3 == len(L) - 1, "%d splits are described, the tree has %d", len(chunks) // 3, len(L) - 1)
        for k in range(1, len(L)):
            who, typ, body = chunks[3 * k - 2: 3 * k + 1]
            n = L[k][0]
            expect(who == names[n.foc] and typ == n.foc_type, "split %d is on %s (%s), not %s (%s)", k, names[n.foc], n.foc_type, who, typ)
            got = dict(re.findall(r"- ([A-Za-z ]+): (.*)$", body, flags=re.M))
            h = [sum(v.heterogeneity * numbers(v, X)[1] for v in ns) for ns in (L[k - 1], L[k])]
            near(got["Position of split"], scaled(float(n.foc_position), n.foc, scale), "position of split %d" % k)
            near(got["Heterogeneity before split"], h[0], "heterogeneity before split %d" % k)
            near(got["Heterogeneity after split"], h[1], "heterogeneity after split %d" % k)
            a, p = re.match(r"%s\s*\(%s\s*%%\)" % (NUM, NUM), got["Heterogeneity drop"]).groups()
            near(a, h[0] - h[1], "drop of split %d" % k)
            if h[0] != 0:
                near(p, 100 * (h[0] - h[1]) / h[0], "relative drop of split %d" % k)
            for key, ns in (("Number of instances before split", L[k - 1]), ("Number of instances after split", L[k])):
                expect([int(v) for v in re.findall(r"\d+", got[key])] == [numbers(v, X)[0] for v in ns], "%s: %s, expected %s", key, got[key], [numbers(v, X)[0] for v in ns])


def check_node(node, text):
    """what a node prints about itself"""
    said = dict(re.findall(r"^([A-Za-z_ ]+?): +(.*)$", text, re.M))
    want = {"Node id": node.idx, "name": node.name, "parent name": node.parent_node.name if node.parent_node is not None else None, "level": node.level,
            "heterogeneity": node.heterogeneity, "weight": node.weight, "nof_instances": node.nof_instances}
    if node.parent_node is not None:
        want.update({"foc": node.foc, "foc_type": node.foc_type, "foc_position": node.foc_position, "comparison": node.comparison})
    for k, v in want.items():
        expect(k in said, "a node does not print its %s: %r", k, text)
        if isinstance(v, (int, float, np.floating, np.integer)):
            near(said[k], float(v), "%s of %r" % (k, node.name))
        else:
            expect(said[k].strip() == str(v), "%s of %r is printed as %r", k, node.name, said[k])


def reports(c, obj, X, names, ask, D):
    feats = list(range(D)) if ask == "all" else [ask] if isinstance(ask, int) else list(ask)
    n = 0
    for scale in (None, SCALE[:D]):
        for important in (True, False):
            kw = dict(only_important=important) if not important or scale is not None else {}
            sc = [dict(s) for s in scale] if scale is not None else None
            text = printed(lambda: obj.show_partitioning(ask, scale_x_list=sc, **kw))
            full = {f: obj.tree_full["feature_%d" % f] for f in feats}
            trees = {f: (obj.tree_pruned if important else obj.tree_full)["feature_%d" % f] for f in feats}
            check_show(text, feats, trees, names, scale, X)
            check_describe(printed(lambda: obj.describe_subregions(ask, scale_x_list=sc, **kw)), feats, trees, full, names, scale, X, important)
            c.op(2)
            n += len(text)
    for f in feats:
        for t in (obj.tree_full, obj.tree_pruned):
            for node in (t["feature_%d" % f].nodes if t["feature_%d" % f] is not None else []):
                if hasattr(node, "show"):
                    check_node(node, printed(node.show))
                    c.op()
    c.state(n)


def main(c):
    kind = c.pick("method", REGIONAL)
    d = c.pick("data", shaped_sets()[:2] if kind == "SHAP" and c.tier == "quick" else shaped_sets())
    X = d.X
    D = X.shape[1]
    m = c.pick("model", [gen.cond(D, 1, 0.5), gen.poly(D), gen.additive(D), gen.const(D)])
    depth = c.pick("depth", [2, 1])
    par = c.pick("parameters", [dict(thres=-1e9, small=-1.0), dict(), dict(minp=30), dict(thres=0.3, small=0.0), dict(minp=7, thres=0.0, small=0.0)])
    ask = c.pick("features", ["all", 0, [D - 1, 0], [1]])
    tp = c.pick("types", ["auto(4)", "cont"])
    nm = c.pick("names", [None, ["speed (km/h)", "a b", "x > 3 and y", "temp"][:D]])
    if c.tier == "quick" and (kind == "SHAP" and (depth == 2 and m.mc_name != "cond1" or ask == "all" or nm or par in (dict(), dict(minp=30)) or tp == "cont") or
                              kind in ("RHALE-num", "RHALE-jac", "dPDP-num") and (nm or tp == "cont") or nm and ask != "all"):
        raise Skip()
    p = dict(BASE, depth=depth, split_cat=tp == "cont", spec=FIXED2)
    p.update(par)
    E = np.array([[((7 * i + 3 * k) % 11) / 4.0 - (i % 3) * 0.5 for k in range(D)] for i in range(len(X))]) if kind == "RHALE-eff" and m.mc_name != "const" else m.jac(X)
    kw = dict(feature_names=list(nm)) if nm else {}
    kw.update(dict(feature_types=["cont"] * D) if tp == "cont" else dict(cat_limit=4))
    obj = make_regional(kind, X, m, effects=E, nof_instances="all", **kw)
    obj.fit(ask, **fit_args(p, kind))
    c.op()
    reports(c, obj, X, nm or ["x_%d" % k for k in range(D)], ask, D)


def many(c):
    """features ten and above, deeper trees"""
    kind = c.pick("method", [k for k in REGIONAL if k not in ("SHAP", "RHALE-num", "dPDP-num")])
    D = 12
    X = many_set(48, D).X
    m = c.pick("model", [gen.poly(D), gen.cond(D, 10, 0.0)])
    ask = c.pick("features", [[11, 2], 10, [0, 10, 11]])
    nm = c.pick("names", [None, ["feature %d" % (k * 7 % D) for k in range(D)]])
    depth = c.pick("depth", [2, 3])
    par = c.pick("parameters", [dict(thres=-1e9, small=-1.0), dict(thres=0.1, small=0.0)])
    E = np.array([[((7 * i + 3 * k) % 11) / 4.0 - (i % 3) * 0.5 for k in range(D)] for i in range(len(X))]) if kind == "RHALE-eff" else m.jac(X)
    obj = make_regional(kind, X, m, effects=E, nof_instances="all", cat_limit=9, **({} if nm is None else dict(feature_names=list(nm))))
    obj.fit(ask, **fit_args(dict(BASE, depth=depth, npos=2, minp=4, foc=[5, 1, 4, 3], spec=FIXED2, split_cat=True, **par), kind))
    c.op()
    reports(c, obj, X, nm or ["x_%d" % k for k in range(D)], ask, D)


def unfitted(c):
    """reports of features never fitted (fitted on the fly)"""
    kind = c.pick("method", [k for k in REGIONAL if k != "SHAP"])
    X = shaped_sets()[c.pick("data", [0, 1])].X
    m = c.pick("model", [gen.cond(3, 1, 0.5), gen.const(3)])
    ask = c.pick("features", [0, "all"])
    obj = make_regional(kind, X, m, nof_instances="all", cat_limit=4)
    reports(c, obj, X, ["x_0", "x_1", "x_2"], ask, 3)


BOUNDS = "8 methods x 3 data sets x 4 models x depths 1-2 x 5 parameter sets x feature selections x types x names; both reports, full and important trees, with and without rescaling; 12 features"
ASSUMPTIONS = ["numbers are printed with two decimals", "the trees themselves are decided by C11 and C12"]


def scenarios(tier):
    return [Scenario("reports", main), Scenario("unfitted", unfitted), Scenario("many-features", many)]
