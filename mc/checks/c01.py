"""C01: PDP / ICE / d-PDP definitions."""
import numpy as np

from mc import gen, ref, sequences
from mc.common import make, same, expect, figure
from mc.engine import Scenario, Skip

KINDS = ["PDP", "dPDP-jac", "dPDP-num"]


def _tol(kind):
    return 2e-5 if kind == "dPDP-num" else 1e-9


def _curve(kind, m, X, feat, xs):
    return ref.ice(m.f, X, feat, xs) if kind == "PDP" else ref.dice(m.jac, X, feat, xs)


def _check(c, kind, m, X, feat, xs, vec, obj=None):
    obj = obj or make(kind, X, m, nof_instances="all")
    want = _curve(kind, m, X, feat, xs)
    kw = {} if vec is None else {"use_vectorized": vec}
    y = obj.eval(feat, xs, **kw)
    c.op()
    same(y, want.mean(axis=1), "mean curve", _tol(kind))
    got = obj.eval(feat, xs, return_all=True, **kw)
    c.op()
    same(got, want, "individual curves (T, N)", _tol(kind))
    r = obj.eval(feat, xs, heterogeneity=True, **kw)
    c.op()
    expect(isinstance(r, tuple) and len(r) == 2, "heterogeneity=True must return (mean, std)")
    same(r[0], want.mean(axis=1), "mean curve with heterogeneity", _tol(kind))
    same(r[1], want.std(axis=1), "heterogeneity", 10 * _tol(kind))
    c.state(y, got)
    return obj


def exhaustive(c):
    """every column of interest over a 3-value alphabet, every feature position, both computations"""
    kind = c.pick("method", KINDS)
    D = c.pick("features", [2, 1, 3])
    feat = c.pick("feature", list(range(D)))
    col = c.pick("column", gen.columns([0.0, 0.5, 2.0], 4 if c.tier == "thorough" else 3))
    mk = c.pick("model", [gen.poly, gen.prod] + ([gen.step, gen.intout] if kind == "PDP" else [gen.lin]))
    vec = c.pick("vectorized", [True, False])
    X = gen.with_column(col, D, feat)
    if (X.min(axis=0) >= X.max(axis=0))[feat]:
        lims = np.stack([X.min(axis=0) - 1, X.max(axis=0) + 1])
        obj = make(kind, X, mk(D), nof_instances="all", axis_limits=lims)
    else:
        obj = None
    xs = np.array([2.0, 0.25, 0.25, -1.0, 0.5, 7.0, 0.0])
    _check(c, kind, mk(D), X, feat, xs, vec, obj)


def shaped(c):
    """hand-shaped data, every feature asked for in turn from ONE object, lengths 1..many"""
    kind = c.pick("method", KINDS)
    d = c.pick("data", gen.small_sets())
    X = d.X
    D = X.shape[1]
    mk = c.pick("model", [gen.poly, gen.additive, gen.lin, gen.prod])
    vec = c.pick("vectorized", [None, True, False])
    obj = make(kind, X, mk(D), nof_instances="all")
    m = mk(D)
    for feat in list(range(D)) + list(reversed(range(D))):
        lo, hi = X[:, feat].min(), X[:, feat].max()
        if lo == hi:
            continue
        for xs in gen.grid_points(lo, hi):
            _check(c, kind, m, X, feat, xs.X, vec, obj)


def large(c):
    """more instances / positions than any internal block would hold"""
    kind = c.pick("method", KINDS)
    N, T = c.pick("N, T", [(n, t) for n in (1, 2, 33, 130, 301) for t in (1, 2, 31, 101)] + [(1101, 401), (401, 1103), (2500, 251), (25, 2001), (2001, 25), (513, 129), (10007, 3), (3, 10007)])
    vec = c.pick("vectorized", [True, False])
    D = c.pick("features", [3, 1, 17, 40] if N * T < 5000 else [3])
    i = np.arange(N)
    X = np.stack([(i * 7 % 16) / 8.0, (i * 5 % 32) / 16.0 - 1, (i * 3 % 64) / 32.0]
                 + [((i * (2 * d + 1)) % 32) / 16.0 - 1 for d in range(3, D)], axis=1)[:, :D]
    lims = np.array([[-1.0, -2, -1] + [-2] * (D - 3), [3] * D])[:, :D] if D >= 3 else np.array([[-1.0], [3.0]])
    m = gen.poly(D)
    xs = np.linspace(-0.5, 2.5, T)
    feat = c.pick("feature", sorted({0, min(1, D - 1), D - 1}) if N * T < 40000 else [1])
    if not vec and T > 1200:
        raise Skip()
    obj = make(kind, X, m, nof_instances="all", axis_limits=lims)
    # closed form of the polynomial's ICE curves, vectorised by hand
    Z = np.repeat(X[None], T, axis=0)
    Z[:, :, feat] = xs[:, None]
    flat = Z.reshape(T * N, D)
    want = (m.f(flat) if kind == "PDP" else m.jac(flat)[:, feat]).reshape(T, N)
    same(obj.eval(feat, xs, return_all=True, use_vectorized=vec), want, "individual curves", _tol(kind))
    y, s = obj.eval(feat, xs, heterogeneity=True, use_vectorized=vec)
    same(y, want.mean(axis=1), "mean curve", _tol(kind))
    same(s, want.std(axis=1), "heterogeneity", 10 * _tol(kind))
    c.op(2)
    c.state(y, s)


def pdp_nd(c):
    """the multi-feature partial dependence used by the interaction scores"""
    from effector.global_effect_pdp import pdp_nd_vectorized, pdp_nd_non_vectorized
    d = c.pick("data", [x for x in gen.small_sets() if x.X.shape[1] > 1])
    X = d.X
    D = X.shape[1]
    m = c.pick("model", [gen.poly, gen.prod])(D)
    feats = c.pick("features", [[0, 1], [1, 0], list(range(D)), [D - 1]])
    fn = c.pick("computation", [pdp_nd_vectorized, pdp_nd_non_vectorized])
    x = np.stack([np.array([0.5, -1.0, 2.0, 0.5]) * (k + 1) for k in range(len(feats))], axis=1)
    want = []
    for row in x:
        Z = X.copy()
        for k, f in enumerate(feats):
            Z[:, f] = row[k]
        want.append(m.f(Z))
    want = np.array(want)
    got = fn(m.f, X, x, feats, False, False)
    same(got, want.mean(axis=1), "joint partial dependence")
    mu, sd, se = fn(m.f, X, x, feats, True, False)
    c.op(2)
    same(mu, want.mean(axis=1), "joint partial dependence")
    same(sd, want.std(axis=1), "std")
    same(se, want.std(axis=1) / np.sqrt(len(X)), "standard error")
    c.state(got, sd)


BOUNDS = ("every sequence of 1-3 (5) evaluation positions over 4 values for every method and centering; every 3-instance column (thorough: 4-instance) over {0, 0.5, 2} x D in 1..3 x feature position x 3 methods x "
          "4 models x 2 computations; 9 shaped data sets x 4 models x all features from one object x 4 position sets; "
          "N up to 10007 and T up to 10007, up to 627500 curve points at once, up to 40 features")
ASSUMPTIONS = ["numerical derivatives are compared with tolerance 2e-5",
               "values outside the stated alphabets are not covered"]


def scenarios(tier):
    return [Scenario("definition-exhaustive-columns", exhaustive), Scenario("definition-shaped-data", shaped),
            Scenario("definition-large", large), Scenario("joint-partial-dependence", pdp_nd), sequences.scenario(["PDP", "dPDP-jac", "dPDP-num"])]
