"""C23: the black box is only asked about the points the method defines.  The model is the environment: every call it receives is an event of the trace."""
import numpy as np

import effector.interaction as inter
from mc import gen, ref
from mc.common import GLOBAL, REGIONAL, CENTERINGS, make, make_regional, expect, binning, is_ale, is_pdp, figure, captured
from mc.engine import Scenario, Skip, Opt
from mc.history import Op, observe

SHAP = True
H = 1e-5        # numerical derivatives look at most this far


class Spy:
    """the model and its Jacobian, recording every argument"""

    def __init__(self, m):
        self.m, self.f_calls, self.jac_calls = m, [], []
        self.mc_name = m.mc_name

    def see(self, log, X, D=None):
        expect(isinstance(X, np.ndarray) and X.ndim == 2 and X.shape[0] > 0, "queried with %s", "an array of shape %s" % (X.shape,) if isinstance(X, np.ndarray) else type(X))
        log.append(np.array(X, dtype=float))

    def f(self, X):
        self.see(self.f_calls, X)
        return self.m.f(X)

    def jac(self, X):
        self.see(self.jac_calls, X)
        return self.m.jac(X)

    def take(self, D):
        """(rows asked from the model, rows asked from the Jacobian) since the last time"""
        out = []
        for log in (self.f_calls, self.jac_calls):
            for a in log:
                expect(a.shape[1] == D, "queried with %d features, expected %d", a.shape[1], D)
            rows = np.concatenate(log) if log else np.zeros((0, D))
            expect(np.all(np.isfinite(rows)), "queried at a point that is not finite")
            out.append(rows)
            log.clear()
        return out


def origin(rows, X, f):
    """for every row, which instances agree with it in all features but f  -> (rows, instances) booleans"""
    keep = [d for d in range(X.shape[1]) if d != f]
    return np.all(rows[:, None, keep] == X[None][:, :, keep], axis=2) if keep else np.ones((len(rows), len(X)), dtype=bool)


def plain_rows(rows, X, what):
    """every row is an instance, unchanged; every instance is among them"""
    eq = np.all(rows[:, None, :] == X[None], axis=2)
    bad = np.where(~eq.any(axis=1))[0]
    expect(len(bad) == 0, "%s: queried at %s, which is not an instance", what, rows[bad[:1]].tolist())
    missing = np.where(~eq.any(axis=0))[0]
    expect(len(missing) == 0, "%s: instance %s was never asked about", what, missing[:1])


def replaced(rows, X, f, allowed, what, complete=None):
    """every row is an instance with feature f replaced by an allowed position (predicate on arrays); `complete`: positions each instance must be asked at"""
    o = origin(rows, X, f)
    bad = np.where(~o.any(axis=1))[0]
    expect(len(bad) == 0, "%s: queried at %s, which differs from every instance in more than feature %d", what, rows[bad[:1]].tolist(), f)
    ok = allowed(rows[:, f])
    expect(np.all(ok), "%s: queried with feature %d at %s", what, f, np.unique(rows[~ok, f])[:5])
    for p in ([] if complete is None else complete):
        near = np.abs(rows[:, f] - p) <= H * 1.01
        expect(np.all(o[near].any(axis=0)), "%s: not every instance was asked about at %r", what, p)


def one_of(positions, slack=0.0):
    P = np.asarray(positions, dtype=float)
    return lambda v: np.any(np.abs(v[:, None] - P[None]) <= slack + 1e-12 * (1 + np.abs(P[None])), axis=1)


def between(lo, hi, slack=0.0):
    e = slack + 1e-9 * max(1.0, abs(lo), abs(hi))
    return lambda v: (v >= lo - e) & (v <= hi + e)


def either(a, b):
    return lambda v: a(v) | b(v)


# ---------------------------------------------------------------- PDP
def pdp(c, kind, X, m, f, L, xs, ce, vec, k, plot=True):
    D = X.shape[1]
    s = Spy(m)
    Y = X if L is None else X[ref.inside(X, L, f)]
    lo, hi = (X[:, f].min(), X[:, f].max()) if L is None else L[:, f]
    if lo >= hi or len(Y) == 0:
        raise Skip()
    o = make(kind, X, s, nof_instances="all", axis_limits=None if L is None else L.copy())
    q, j = s.take(D)
    plain_rows(q, X, "constructor")
    expect(len(j) == 0, "the constructor asked for derivatives")
    o.fit(f, centering=ce, points_for_centering=k, use_vectorized=vec)
    q, j = s.take(D)
    used, other = (q, j) if kind != "dPDP-jac" else (j, q)
    expect(len(other) == 0, "fit asked the wrong function")
    slack = H if kind == "dPDP-num" else 0.0
    inside = between(lo, hi, slack) if ce in (True, "zero_integral") else one_of([lo], slack)
    if ce is False:
        expect(len(used) == 0, "fit without centering asked about %d points", len(used))
    else:
        replaced(used, Y, f, inside, "fit", [lo] if ce == "zero_start" else [])
    for again in (0, 1):
        if again == 0:
            o.eval(f, xs, heterogeneity=True, centering=ce, use_vectorized=vec)
        else:
            o.eval(f, xs, centering=ce, return_all=True)
        q, j = s.take(D)
        used, other = (q, j) if kind != "dPDP-jac" else (j, q)
        expect(len(other) == 0, "eval asked the wrong function")
        replaced(used, Y, f, one_of(xs, slack) if ce is False else either(one_of(xs, slack), inside), "eval", xs)
    if not plot:
        c.op(4)
        return c.state(len(used), kind)
    with figure():
        o.plot(f, heterogeneity="ice", centering=ce)
    q, j = s.take(D)
    used, other = (q, j) if kind != "dPDP-jac" else (j, q)
    expect(len(other) == 0, "plot asked the wrong function")
    replaced(used, Y, f, between(lo, hi, slack), "plot", [lo, hi])
    c.op(5)
    c.state(len(used), kind)


def pdp_columns(c):
    kind = c.pick("method", ["PDP", "dPDP-jac", "dPDP-num"])
    D = c.pick("features", [2, 1, 3])
    f = c.pick("feature", list(range(D)))
    X = gen.with_column(c.pick("column", [v for v in gen.columns([0.0, 0.5, 2.0], 4 if c.tier == "thorough" else 3) if len(set(v)) > 1]), D, f)
    ce = c.pick("centering", CENTERINGS)
    vec = c.pick("vectorized", [True, False])
    cut = c.pick("axis limits", [None, (0.25, 3.0), (0.0, 0.5)])
    L = None
    if cut:
        L = np.stack([X.min(axis=0), X.max(axis=0)])
        L[:, f] = cut
    pdp(c, kind, X, gen.poly(D), f, L, np.array([2.0, 0.25, -1.0, 7.0]), ce, vec, 3 if c.tier == "quick" else c.pick("points", [3, 10]), plot=c.tier == "thorough")


# ---------------------------------------------------------------- ALE and RHALE
SPECS = [("fixed", dict(nof_bins=k, min_points_per_bin=0, cat_limit=0)) for k in (1, 2, 3, 5)] + [("fixed", dict(nof_bins=4, min_points_per_bin=0, cat_limit=9)), "fixed"]
RSPECS = SPECS[1:2] + [("greedy", dict(init_nof_bins=4, min_points_per_bin=2, discount=0.25, cat_limit=0)), ("dp", dict(max_nof_bins=3, min_points_per_bin=1, discount=0.25, cat_limit=0))]


def ale(c, kind, X, m, f, L, spec, ce, plot=True):
    D = X.shape[1]
    s = Spy(m)
    inside = np.ones(len(X), dtype=bool) if L is None else ref.inside(X, L, f)
    Y = X[inside]
    if len(set(Y[:, f])) < 2:
        raise Skip()
    o = make(kind, X, s, effects=m.jac(X) if kind == "RHALE-eff" else None, nof_instances="all", axis_limits=None if L is None else L.copy())
    q, j = s.take(D)
    if kind != "RHALE-num":
        plain_rows(q, X, "constructor")
    r = observe(Op("", lambda z: z.fit(f, binning_method=binning(spec), centering=ce)), o)
    q2, j2 = s.take(D)
    if kind == "ALE":
        expect(len(j) == 0 and len(j2) == 0, "derivatives were asked")
        if r[0] == "raises" and len(q2) == 0:
            raise Skip()
        if r[0] == "raises":
            # no bin can be averaged: the queries still have to be legal, but the bins are not known
            replaced(q2, Y, f, lambda v: np.isfinite(v), "fit")
            return
        E = np.asarray(o.feature_effect["feature_%d" % f]["limits"], dtype=float)
        b = ref.bin_of(Y[:, f], E)
        need = [(i, E[b[i]]) for i in range(len(Y))] + [(i, E[b[i] + 1]) for i in range(len(Y))]
        og = origin(q2, Y, f)
        for k in range(len(q2)):
            who = np.where(og[k])[0]
            expect(len(who) > 0, "fit: queried at %s, which differs from every instance in more than feature %d", q2[k], f)
            expect(any(np.isclose(q2[k, f], [E[b[i]], E[b[i] + 1]], rtol=0, atol=1e-12 * (1 + np.abs(E).max())).any() for i in who),
                   "fit: instances %s (bins %s of %s) queried with feature %d at %r, not an edge of their bin", who, b[who], E, f, q2[k, f])
        for i, p in need:
            expect(np.any(og[:, i] & (np.abs(q2[:, f] - p) <= 1e-12 * (1 + np.abs(E).max()))), "fit: instance %d was not asked about at %r", i, p)
    elif kind == "RHALE-eff":
        expect(len(j) == 0 and len(j2) == 0, "derivatives were asked although the effects were given")
        if len(q2):
            plain_rows(q2, X, "fit")
    elif kind == "RHALE-jac":
        expect(len(j) + len(j2) > 0, "the derivatives were not asked")
        plain_rows(np.concatenate([j, j2]), X, "derivatives")
        if len(q2):
            plain_rows(q2, X, "fit")
    else:
        rows = np.concatenate([q, q2])
        expect(len(j) == 0 and len(j2) == 0, "a Jacobian was asked that was not given")
        d = np.abs(rows[:, None, :] - X[None])
        near = np.all(d <= H, axis=2) & ((d > 0).sum(axis=2) <= 1)
        bad = np.where(~near.any(axis=1))[0]
        expect(len(bad) == 0, "numerical derivatives: queried at %s, which is not next to an instance", rows[bad[:1]].tolist())
        for k in range(D):
            moved = near & (d[:, :, k] > 0)
            expect(np.all(moved.any(axis=0)), "numerical derivatives: an instance was not moved along feature %d", k)
    if r[0] == "raises":
        raise Skip()
    # evaluation needs nothing more, plotting at most the average output
    xs = np.array([Y[:, f].min(), Y[:, f].max(), Y[:, f].mean(), Y[:, f].max() + 1])
    for e in (ce, False):
        o.eval(f, xs, True, e)
    q, j = s.take(D)
    expect(len(q) == 0 and len(j) == 0, "eval asked about %d points", len(q) + len(j))
    if not plot:
        c.op(3)
        return c.state(kind, len(q2), len(j2))
    with figure():
        o.plot(f, True, ce, show_avg_output=True)
    q, j = s.take(D)
    expect(len(j) == 0, "plot asked for derivatives")
    if len(q):
        plain_rows(q, X, "plot")
    c.op(4)
    c.state(kind, len(q2), len(j2))


def ale_columns(c):
    kind = c.pick("method", ["ALE", "RHALE-eff", "RHALE-jac", "RHALE-num"])
    D = c.pick("features", [2, 1])
    f = c.pick("feature", list(range(D)))
    n = 5 if c.tier == "thorough" else 4
    X = gen.with_column(c.pick("column", [v for v in gen.columns([0.0, 0.5, 1.0, 2.0], n) if len(set(v)) > 1]), D, f)
    spec = c.pick("binning", SPECS if kind == "ALE" else RSPECS)
    cut = c.pick("axis limits", [None, (0.0, 1.0)] + ([(-0.5, 2.25)] if c.tier == "thorough" else []))
    L = None
    if cut:
        L = np.stack([X.min(axis=0), X.max(axis=0)])
        L[:, f] = cut
    ale(c, kind, X, gen.poly(D), f, L, spec, c.pick("centering", [True, False] if c.tier == "thorough" or spec == SPECS[1] else [True]), plot=c.tier == "thorough")


def shaped_sets():
    i = np.arange(14)
    return [gen.Data("14x3", np.stack([(i * 5 % 14) / 4.0, (i * 3 % 7) * 1.0 - 2, np.cos(i)], axis=1)), gen.Data("14x2 ties", np.stack([(i * 5 % 14) // 3 * 1.0, (i * 3 % 7) * 0.5], axis=1)),
            gen.Data("9x4 far units", np.stack([i[:9] * 1e-4, i[:9] * 5 % 9 + 1000.0, np.sin(i[:9]), i[:9] % 2 * 1.0], axis=1))]


def shaped(c):
    kind = c.pick("method", [k for k in GLOBAL if k != "SHAP"])
    X = c.pick("data", shaped_sets()).X
    D = X.shape[1]
    f = c.pick("feature", list(range(D)))
    ce = c.pick("centering", [True, False, "zero_start"])
    if is_pdp(kind):
        pdp(c, kind, X, gen.poly(D), f, None, np.linspace(X[:, f].min() - 0.25, X[:, f].max(), 4), ce, c.pick("vectorized", [True, False]), 7)
    else:
        ale(c, kind, X, gen.poly(D), f, None, c.pick("binning", SPECS if kind == "ALE" else RSPECS), ce)


# ---------------------------------------------------------------- SHAP and the interaction measures: mixtures of two instances
def mixtures(rows, X, what):
    """every row takes each feature from one of two instances"""
    rows = np.unique(rows, axis=0)
    eq = rows[:, None, :] == X[None]                       # (R, N, D)
    bits = (eq * (1 << np.arange(X.shape[1]))).sum(axis=2)  # which features come from instance n
    full = (1 << X.shape[1]) - 1
    ok = np.array([np.any((b[:, None] | b[None]) == full) for b in bits])
    expect(np.all(ok), "%s: queried at %s, which is no mixture of two instances", what, rows[~ok][:1].tolist())


def shap(c):
    X = c.pick("data", shaped_sets()).X
    D = X.shape[1]
    s = Spy(gen.poly(D))
    ce = c.pick("centering", [False, True])
    o = make("SHAP", X, s, nof_instances="all")
    q, j = s.take(D)
    plain_rows(q, X, "constructor")
    for f in range(D):
        o.fit(f, centering=ce)
        q, j = s.take(D)
        expect(len(q) > 0, "fit asked nothing")
        mixtures(q, X, "fit")
        o.eval(f, np.array([X[:, f].min(), X[:, f].max()]), True, ce)
        q, j = s.take(D)
        if len(q):
            mixtures(q, X, "eval")
        c.op(2)
    c.state(len(q))


def interactions(c):
    X = c.pick("data", shaped_sets()).X
    D = X.shape[1]
    s = Spy(gen.poly(D))
    what = c.pick("measure", ["H-index", "REPID"])
    if what == "H-index":
        o = inter.HIndex(X, s.f, nof_instances="all")
    else:
        jac = c.pick("jacobian", [True, False])
        o = inter.REPID(X, s.f, s.jac if jac else None, "all")
    s.take(D)
    for i in range(D):
        o.eval_one_vs_all(i)
        q, j = s.take(D)
        expect(len(j) == 0, "derivatives were asked")
        if what == "H-index":
            mixtures(q, X, "one versus rest")
            for k in range(D):
                o.eval_pairwise(i, k)
                q, j = s.take(D)
                if len(q):
                    mixtures(q, X, "pairwise")
        else:
            replaced(q, X, i, between(X[:, i].min(), X[:, i].max()), "REPID")
        c.op(2)
    c.state(what)


# ---------------------------------------------------------------- regional
def regional(c):
    kind = c.pick("method", REGIONAL)
    d = c.pick("data", ["24x3", "20x2"])
    i = np.arange(24)
    X = np.stack([(i * 7 % 24) / 6.0, (i % 3) * 1.0, (i * 5 % 24) / 12.0 - 1.0], axis=1)
    if d == "20x2":
        X = np.stack([X[:20, 2], (i[:20] * 3 % 4) * 0.5], axis=1)
    D = X.shape[1]
    f = c.pick("feature", list(range(D)))
    if len(set(X[:, f])) < 8 and kind == "SHAP":
        raise Skip()
    depth = c.pick("depth", [1, 2] if D > 2 else [1])
    ce = c.pick("centering", [True, False, "zero_start"])
    if kind == "SHAP" and c.tier == "quick" and (depth > 1 or ce is not False or f):
        raise Skip()
    s = Spy(gen.poly(D))
    o = make_regional(kind, X, s, effects=s.m.jac(X) if kind == "RHALE-eff" else None, nof_instances="all", feature_types=["cont"] * D)
    q, j = s.take(D)
    args = dict(heter_pcg_drop_thres=0.0, heter_small_enough=0.0, max_depth=depth, nof_candidate_splits_for_numerical=3, min_points_per_subregion=4, centering=ce)
    if is_ale(kind):
        args["binning_method"] = binning(("fixed", dict(nof_bins=3, min_points_per_bin=0, cat_limit=0)))
    lo, hi = X[:, f].min(), X[:, f].max()
    for call in ("fit", "eval", "plot"):
        if call == "fit":
            o.fit(f, **args)
        else:
            nodes = len(o.tree_pruned["feature_%d" % f].nodes)
            for n in range(nodes):
                if call == "eval":
                    o.eval(f, n, np.array([lo, hi]), True, ce)
                else:
                    with figure():
                        o.plot(f, n, heterogeneity="ice" if is_pdp(kind) else True, centering=ce)
        a, b = s.take(D)
        q, j = (np.concatenate([q, a]), np.concatenate([j, b])) if call == "fit" else (a, b)
        if kind in ("PDP", "ALE"):
            expect(len(j) == 0, "%s asked for derivatives", call)
            replaced(q, X, f, between(lo, hi), call)
        elif kind == "dPDP-jac":
            plain = q
            if len(plain):
                plain_rows_subset(plain, X, call)
            replaced(j, X, f, between(lo, hi), call)
        elif kind == "dPDP-num":
            replaced(q, X, f, between(lo, hi, H), call)
        elif kind == "RHALE-eff":
            expect(len(j) == 0, "%s asked for derivatives although the effects were given", call)
            if len(q):
                plain_rows_subset(q, X, call)
        elif kind == "RHALE-jac":
            if len(q):
                plain_rows_subset(q, X, call)
            if len(j):
                plain_rows_subset(j, X, call)
        elif kind == "RHALE-num":
            e = np.abs(q[:, None, :] - X[None])
            ok = (np.all(e <= H, axis=2) & ((e > 0).sum(axis=2) <= 1)).any(axis=1)
            expect(np.all(ok), "%s: queried at %s, which is not next to an instance", call, q[~ok][:1].tolist())
        else:
            mixtures(q, X, call)
        c.op()
    c.state(kind, len(q), len(j))


def plain_rows_subset(rows, X, what):
    eq = np.all(rows[:, None, :] == X[None], axis=2)
    bad = np.where(~eq.any(axis=1))[0]
    expect(len(bad) == 0, "%s: queried at %s, which is not an instance", what, rows[bad[:1]].tolist())


BOUNDS = ("PDP family: every column over 3 values for 3 (thorough: 4) instances x features x centerings x both computations x 3 axis limits; ALE/RHALE: every column over 4 values for 4 (thorough: 5) instances x "
          "bin layouts x limits; 3 shaped data sets; SHAP-DP; H-index and REPID; 8 regional methods through fit, evaluation and plot of every node.  Every row of every model call is checked")
ASSUMPTIONS = ["numerical derivatives may look up to 1e-5 away from a position", "the average output (plots, constructor) is the model on the instances"]


def scenarios(tier):
    return [Scenario("pdp-all-columns", pdp_columns), Scenario("ale-all-columns", ale_columns), Scenario("shaped", shaped), Scenario("shap", shap),
            Scenario("interactions", interactions), Scenario("regional", regional)]
