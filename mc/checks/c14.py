"""C14: regional effects do not remember earlier calls."""
import re

import numpy as np

from mc import gen, ref
from mc.common import REGIONAL, make_regional, binning, is_ale, is_pdp, expect
from mc.checks.c12 import fit_args, BASE, FIXED2, GREEDY
from mc.engine import Scenario, Opt
from mc.history import Op, search, drawn, printed, observe, difference

SHAP = True
SCALE = [{"mean": 1.0, "std": 2.0}, {"mean": -3.0, "std": 0.5}, {"mean": 100.0, "std": 10.0}]


def data(name="a"):
    i = np.arange(24)
    X = np.stack([(i * 7 % 24) / 6.0, (i % 3) * 1.0, (i * 5 % 24) / 12.0 - 1.0], axis=1)
    return X if name == "a" else np.stack([X[:, 2] * 2, X[:, 0] - 1, (i % 2) * 1.0], axis=1)


def sets(kind):
    a = dict(BASE, depth=2, npos=2, minp=4, thres=0.0, small=0.0, split_cat=True, spec=FIXED2)
    b = dict(BASE, depth=1, npos=3, minp=3, thres=0.05, small=0.0, split_cat=False, foc=[0, 1, 2],
             spec=("fixed", dict(nof_bins=1, min_points_per_bin=2, cat_limit=0)) if kind == "ALE" else ("greedy", dict(init_nof_bins=4, min_points_per_bin=2, discount=0.25, cat_limit=0)))
    # nothing is important enough here, no split is kept
    return [a, b, dict(a, small=1e9, depth=1)]


def fit_op(kind, feat, j, D=3):
    def run(o):
        kw = fit_args(sets(kind)[j], kind)
        if isinstance(kw["candidate_conditioning_features"], list):
            kw["candidate_conditioning_features"] = [f for f in range(D) if f != feat] if feat != "all" else "all"
        o.fit(feat, **kw)
    return Op("fit(%s,#%d)" % (feat, j), run, spec=lambda s: tuple(j if feat == "all" or f == feat else s[f] for f in range(len(s))), query=False)


def before(kind, f):
    def setup(s):
        if s[f] is None:
            return []
        if s[f] == "auto":
            return [Op("fit(%d)" % f, lambda o: o.fit(f))]
        return [fit_op(kind, f, s[f])]
    return setup


def auto(*fs):
    return lambda s: tuple("auto" if f in fs and s[f] is None else s[f] for f in range(len(s)))


def queries(kind, f, X, tier):
    xs = np.array([X[:, f].min(), np.median(X[:, f]), X[:, f].max()])
    setup = before(kind, f)
    out = []

    def q(name, run, fits=True):
        out.append(Op("%s(%d)" % (name, f), run, setup=setup, spec=auto(f) if fits else None))
    q("eval[0]", lambda o: o.eval(f, 0, xs.copy(), True, True))
    q("eval[1]", lambda o: o.eval(f, 1, xs.copy()))
    q("eval[2,zero_start]", lambda o: o.eval(f, 2, xs.copy(), True, "zero_start"))
    q("plot[1]", lambda o: drawn(lambda: o.plot(f, 1, heterogeneity="ice" if is_pdp(kind) else True, centering=True)))
    q("plot[2,scaled]", lambda o: drawn(lambda: o.plot(f, 2, scale_x_list=[dict(s) for s in SCALE], scale_y={"mean": 2.0, "std": 3.0})))
    q("node[1]", lambda o: o.get_node_info(f, 1), False)
    q("node[2,scaled]", lambda o: o.get_node_info(f, 2, [dict(s) for s in SCALE]), False)
    q("show", lambda o: printed(lambda: o.show_partitioning(f)))
    q("show[full,scaled]", lambda o: printed(lambda: o.show_partitioning(f, False, [dict(s) for s in SCALE])))
    q("describe", lambda o: printed(lambda: o.describe_subregions(f)))
    q("describe[full,scaled]", lambda o: printed(lambda: o.describe_subregions(f, False, [dict(s) for s in SCALE])))
    return out


def refused(kind, f):
    """calls that must fail and change nothing"""
    return [Op("fit(%d,min points 1)" % f, lambda o: o.fit(f, min_points_per_subregion=1)),
            Op("fit(%d,too deep)" % f, lambda o: o.fit(f, max_depth=9, split_categorical_features=True))]


def build(kind, X, m, seed=None):
    return make_regional(kind, X, m, effects=-0.5 * m.jac(X), nof_instances="all", cat_limit=4)


def histories(c):
    kind = c.pick("method", [k for k in REGIONAL if c.tier == "thorough" or k not in ("RHALE-jac", "RHALE-num")])
    X = data()
    m = gen.poly(3)
    quick = c.tier == "quick"
    feats = (0, 1) if kind != "SHAP" or not quick else (0,)
    ops = []
    for f in feats:
        ops += [fit_op(kind, f, 0)] + ([fit_op(kind, f, 1)] if f == 0 or not quick else []) + ([fit_op(kind, f, 2)] if f == 0 else [])
        ops += queries(kind, f, X, c.tier) if not (quick and f) else [q for q in queries(kind, f, X, c.tier) if q.name[:5] in ("eval[", "node[", "show(")]
        ops += refused(kind, f) if not (quick and f) else []
    if kind != "SHAP" or not quick:
        ops.append(fit_op(kind, "all", 0))
    closed, deep, n = search(c, lambda: build(kind, X, m), ops, (None,) * 3, depth=8 if not quick else 5, tol=1e-5 if kind.endswith("num") else 1e-7,
                             seconds=200 if quick else 5400)
    c.state(closed, deep, n)


MEMO = {}       # answers of fresh objects, per worker process


def two_objects(c):
    """nothing leaks between objects: every sequence of calls on two objects"""
    kind = c.pick("method", REGIONAL if c.tier == "thorough" else ["PDP", "ALE", "RHALE-eff"])
    X, m = [data("a"), data("b")], [gen.poly(3), gen.prod(3)]
    ops = []
    for w in (0, 1):
        qs = {q.name.split("(")[0]: q for q in queries(kind, 0, X[w], c.tier)}
        ops += [(w, qs[k]) for k in (("eval[1]", "plot[2,scaled]", "node[1]", "show") if c.tier == "thorough" else ("plot[2,scaled]", "node[1]", "show"))]
        ops += [(w, fit_op(kind, 0, 1))] + ([(w, fit_op(kind, 0, 0))] if w == 0 or c.tier == "thorough" else [])
    o = [build(kind, X[0], m[0]), build(kind, X[1], m[1])]
    spec = [(None,) * 3] * 2
    for k in range(4 if c.tier == "thorough" else 3):
        w, op = c.pick("call %d" % k, [Opt("obj%d.%s" % (w, op.name), (w, op)) for w, op in ops])
        got = observe(op, o[w])
        c.op()
        if op.query:
            key = (kind, w, spec[w][0], op.name)
            if key not in MEMO:
                fr = build(kind, X[w], m[w])
                for s in op.setup(spec[w]):
                    s.run(fr)
                MEMO[key] = observe(op, fr)
            d = difference(got, MEMO[key], 1e-5 if kind.endswith("num") else 1e-7)
            expect(d is None, "call %d (%s on object %d): %s", k, op.name, w, d)
        else:
            expect(got[0] == "ok", "%s raises %s", op.name, got[1])
        spec[w] = op.spec(spec[w]) if op.spec else spec[w]
    c.state(spec)


BOUNDS = ("per method: closure (or depth 5; thorough 8) of the state space of one object under fits with three option sets (one of which keeps no split; one feature or all), refused fits, evaluations, plots (with and "
          "without rescaled axes), node queries and printed reports; all sequences of 3 (thorough: 4) calls over two objects")
ASSUMPTIONS = ["two objects whose attributes are equal (to 9 digits) behave equally, apart from process-wide state (covered by the two-object sequences)"]


def scenarios(tier):
    return [Scenario("one-object-closure", histories, timeout=7200 if tier == "thorough" else 500), Scenario("two-objects", two_objects)]
