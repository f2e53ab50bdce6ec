"""C26: the documented building blocks (effector.utils) do what they document, on every small input."""
import inspect
import itertools
import math

import numpy as np

import effector.global_effect_pdp as pdp_module
import effector.utils as utils
from mc import gen
from mc.common import expect, same
from mc.engine import Scenario, Skip, Opt

NAN = float("nan")


class Tools:
    """the functions under their documented names and arguments; one that no longer exists in that form promises nothing"""

    def __init__(self, module):
        self.module = module

    def __getattr__(self, name):
        fun = getattr(self.module, name, None)

        def call(*args, **kw):
            try:
                inspect.signature(fun).bind(*args, **kw)
            except TypeError:
                raise Skip()
            return fun(*args, **kw)
        return call


U = Tools(utils)
G = Tools(pdp_module)


def grids(tier):
    g = [0.0, 0.5, 1.0, 2.0, 3.0] + ([-1.0] if tier == "thorough" else [])
    out = []
    for k in (2, 3, 4):
        out += [list(q) for q in itertools.combinations(sorted(g), k)]
    return out


def inside(L):
    """values inside, on the edges and between them"""
    return sorted(set(L) | {(a + b) / 2 for a, b in zip(L, L[1:])})


def bins_of(xs, L):
    """0-based bin, closed on the left, the last one on both sides"""
    K = len(L) - 1
    out = []
    for x in xs:
        k = [j for j in range(K) if L[j] <= x < L[j + 1] or (j == K - 1 and x == L[K])]
        out.append(k[0])
    return out


def eq(got, want, what, tol=1e-12):
    got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    expect(got.shape == want.shape, "%s: shape %s, expected %s", what, got.shape, want.shape)
    ok = np.array_equal(np.isnan(got), np.isnan(want)) and np.allclose(got, want, rtol=tol, atol=tol, equal_nan=True)
    expect(ok, "%s: %s, expected %s", what, got.tolist(), want.tolist())


def fill(v):
    """empty bins take what lies on the line between their neighbours; beyond the outermost ones their value"""
    have = [i for i, x in enumerate(v) if not math.isnan(x)]
    out = []
    for i, x in enumerate(v):
        if not math.isnan(x):
            out.append(x)
            continue
        lo, hi = [j for j in have if j < i], [j for j in have if j > i]
        if lo and hi:
            a, b = lo[-1], hi[0]
            out.append(v[a] + (v[b] - v[a]) * (i - a) / (b - a))
        else:
            out.append(v[lo[-1]] if lo else v[hi[0]])
    return out


def statistics(xs, es, L):
    K = len(L) - 1
    b = bins_of(xs, L)
    n = [b.count(k) for k in range(K)]
    mean = [sum(e for e, j in zip(es, b) if j == k) / n[k] if n[k] else NAN for k in range(K)]
    var = [sum((e - mean[k]) ** 2 for e, j in zip(es, b) if j == k) / n[k] if n[k] > 1 else NAN for k in range(K)]
    est = [v / k if k > 1 else NAN for v, k in zip(var, n)]
    return b, n, mean, var, est


def bins(c):
    """bin index, mean, variance and all parameters for every set of instances"""
    L = c.pick("limits", grids(c.tier))
    n = c.pick("N", [1, 2, 3, 4] if c.tier == "thorough" else [1, 2, 3])
    vals = inside(L)
    es_all = [2.0, -1.0, 2.0, 0.5] if c.pick("effects", [0, 1]) == 0 else [1.0, 1.0, 4.0, -3.0]
    typ = c.pick("storage", ["float", "int"])
    if typ == "int":
        vals = [v for v in vals if v == int(v)]
        if len(L) != len([v for v in L if v == int(v)]) or any(e != int(e) for e in es_all[:n]):
            raise Skip()
    for xs in itertools.product(vals, repeat=n):
        x, e, l = [np.array(v, dtype=typ) for v in (xs, es_all[:n], L)]
        keep = x.copy(), e.copy(), l.copy()
        b, cnt, mean, var, est = statistics(list(xs), es_all[:n], L)
        eq(U.find_bin_indices(x, l), [k + 1 for k in b], "bin indices of %s in %s" % (xs, L))
        m, p = U.compute_bin_effect(x, e, l)
        eq(m, mean, "bin effects of %s in %s" % (xs, L))
        eq(p, cnt, "points per bin")
        v, s = U.compute_bin_variance(x, e, l, np.array(mean))
        eq(v, var, "bin variance of %s in %s" % (xs, L))
        eq(s, est, "estimator variance")
        c.op(3)
        if max(cnt) > 1:
            par = U.compute_ale_params(x, e, l)
            expect(set(par) >= {"limits", "dx", "points_per_bin", "bin_effect", "bin_variance", "bin_estimator_variance"}, "parameters %s", sorted(par))
            eq(par["limits"], L, "limits")
            eq(par["dx"], [q - p for p, q in zip(L, L[1:])], "dx")
            eq(par["points_per_bin"], cnt, "points per bin")
            eq(par["bin_effect"], fill(mean), "filled bin effects of %s in %s" % (xs, L))
            eq(par["bin_variance"], fill(var), "filled bin variance of %s in %s" % (xs, L))
            eq(par["bin_estimator_variance"], fill(est), "filled estimator variance")
            c.op()
        for a, k in zip((x, e, l), keep):
            expect(np.array_equal(a, k) and a.dtype == k.dtype, "an argument was modified")
        c.state(L, xs, mean, var)


def filtering(c):
    L = c.pick("limits", grids(c.tier))[:2]
    vals = sorted(set(inside(L)) | {L[0] - 1, L[0] - 1e-12, L[1] + 1e-12, L[1] + 1})
    given = c.pick("effects", ["given", "none"])
    for n in range(0, 4):
        for xs in itertools.product(vals, repeat=n):
            x = np.array(xs, dtype=float)
            e = np.arange(n) * 1.0 + 10 if given == "given" else None
            a, b = U.filter_points_in_bin(x, e, np.array(L))
            want = [i for i, v in enumerate(xs) if L[0] <= v <= L[1]]
            eq(a, [xs[i] for i in want], "points of %s in %s" % (xs, L))
            if e is None:
                expect(b is None, "effects were not given")
            else:
                eq(b, [10.0 + i for i in want], "effects of the points of %s in %s" % (xs, L))
            c.op()
            c.state(L, xs, given)


def filling(c):
    n = c.pick("length", [1, 2, 3, 4, 5, 6] + ([7] if c.tier == "thorough" else []))
    first = c.pick("first", [0.0, NAN])
    for rest in itertools.product([NAN, 1.0, -2.0] if n > 4 else [NAN, 1.0, -2.0, 8.0], repeat=n - 1):
        v = [first] + list(rest)
        if all(math.isnan(x) for x in v):
            continue
        a = np.array(v)
        eq(U.fill_nans(a), fill(v), "filling %s" % v)
        eq(a, v, "the argument")
        c.op()
        c.state(v)


def accumulate(c):
    L = c.pick("limits", grids(c.tier))
    K = len(L) - 1
    square = c.pick("square", [False, True, None])
    xs = sorted(set(inside(L)) | {L[0] - 1, L[0] - 1e-9, L[-1] + 1e-9, L[-1] + 2})
    order = c.pick("order", ["up", "down", "single", "twice"])
    p = 2 if square else 1
    dx = [b - a for a, b in zip(L, L[1:])]
    for e in itertools.product([1.0, -2.0, 0.5], repeat=K):
        def at(x):
            y = 0.0
            for k in range(K):
                if x >= L[k + 1]:
                    y += e[k] * dx[k] ** p
                elif x > L[k]:
                    y += e[k] * (x - L[k]) ** p
            return y
        for q in ([xs] if order == "up" else [xs[::-1]] if order == "down" else [[x] for x in xs] if order == "single" else [xs[::2] + xs]):
            x = np.array(q)
            got = U.compute_accumulated_effect(x, np.array(L), np.array(e), np.array(dx), **({} if square is None else {"square": square}))
            eq(got, [at(v) for v in q], "accumulated effect of %s over %s" % (e, L), 1e-9)
            eq(x, q, "the argument")
            c.op()
        c.state(L, e, square, order)


def local_effects(c):
    L = c.pick("limits", grids(c.tier))
    D = c.pick("D", [1, 2, 3])
    f = c.pick("feature", range(D))
    m = c.pick("model", [gen.poly(D), gen.prod(D)] + ([gen.intout(D)] if D > 1 else []))
    n = c.pick("N", [1, 2, 3] if c.tier == "thorough" else [1, 2])
    typ = c.pick("storage", ["float", "int"])
    vals = [v for v in inside(L) if typ == "float" or v == int(v)]
    for xs in itertools.product(vals, repeat=n):
        X = np.array([[(i * 3 % 5) * (0.5 if typ == "float" else 1) + d for d in range(D)] for i in range(n)])
        X[:, f] = xs
        F = X.astype(float)
        X = X.astype(typ)
        keep = X.copy()
        got = U.compute_local_effects(X, m.f, np.array(L), f)
        b = bins_of(xs, L)
        A, B = F.copy(), F.copy()
        A[:, f], B[:, f] = [L[k] for k in b], [L[k + 1] for k in b]
        eq(got, (m.f(B) - m.f(A)) / (B[:, f] - A[:, f]), "local effects of %s in %s" % (xs, L), 1e-10)
        expect(np.array_equal(X, keep), "the data was modified")
        c.op()
        c.state(L, f, xs)
    for out in (L[0] - 0.25, L[-1] + 0.25, L[-1] + 1e-9, L[0] - 1e-9):          # instances outside the limits are refused
        X = np.full((2, D), L[0])
        X[1, f] = out
        try:
            got = U.compute_local_effects(X, m.f, np.array(L), f)
        except AssertionError:
            continue
        expect(False, "an instance at %r outside the limits %s gets the effect %s", out, L, got)


def jacobian(c):
    D = c.pick("D", [1, 2, 3])
    N = c.pick("N", [1, 2, 5])
    eps = c.pick("step", [None, 2.0 ** -10, 2.0 ** -4, 0.5])
    typ = c.pick("storage", ["float", "int", "float32"] if eps else ["float", "int"])
    m = c.pick("model", [gen.poly(D), gen.prod(D), gen.lin(D), gen.const(D)])
    X = np.array([[((i * 3 + d * 2) % 5) - 1 for d in range(D)] for i in range(N)]).astype(typ)
    keep = X.copy()
    J = U.compute_jacobian_numerically(m.f, X, **({} if eps is None else {"eps": eps}))
    expect(np.array_equal(X, keep) and X.dtype == keep.dtype, "the data was modified")
    Z = X.astype(float)
    if eps is None:
        eq(J, m.jac(Z), "Jacobian", 2e-6)
    else:
        want = np.zeros((N, D))
        for d in range(D):
            P = Z.copy()
            P[:, d] += eps
            want[:, d] = (m.f(P) - m.f(Z)) / eps
        eq(J, want, "Jacobian with step %r" % eps, 1e-9 if typ != "float32" else 2e-3)
    c.op()
    c.state(D, N, eps, typ, J)


def types(c):
    n = c.pick("rows", [1, 2, 3, 4] + ([5] if c.tier == "thorough" else []))
    lim = c.pick("limit", [None, 1, 2, 3, 4, 5, 10])
    if lim is None:
        X = np.stack([np.arange(24) % k * 0.5 for k in (8, 9, 10, 11, 12)], axis=1)
        got = U.get_feature_types(X)
        expect(list(got) == ["cat", "cat", "cont", "cont", "cont"], "types of features with 8-12 values: %s", got)
    cols = list(itertools.product([0.0, 1.0, 2.5, -1.0][: max(2, n)], repeat=n))
    for a, b in zip(cols, cols[7:] + cols[:7]):
        X = np.stack([a, b], axis=1)
        got = U.get_feature_types(X, *([] if lim is None else [lim]))
        want = ["cat" if len(set(v)) < (10 if lim is None else lim) else "cont" for v in (a, b)]
        expect(list(got) == want, "types of %s and %s with limit %s: %s", a, b, lim, got)
        c.op()
        c.state(a, b, lim)


def averages(c):
    """partial dependence on one and on several features, in both ways of computing it: mean, deviation and standard error over the instances"""
    N = c.pick("instances", [3, 1, 2, 5])
    D = c.pick("features", [3, 2])
    i = np.arange(N)
    X = np.stack([(i * 2 % 5) * 0.5, (i * 3 % 4) - 1.0, i * 1.0][:D], axis=1)
    m = gen.poly(D)
    typ = c.pick("storage", ["float", "int"])
    if typ == "int":
        X = X.round().astype(int)
    what = c.pick("which", ["1d", "nd"])
    jac = c.pick("model", [Opt("returns predictions", False), Opt("returns Jacobians", True)])
    call = m.jac if jac else m.f
    feats = c.pick("feature", list(range(D))) if what == "1d" else c.pick("features of interest", [list(q) for k in range(1, D + 1) for q in itertools.permutations(range(D), k)])
    one = [0.0, 1.5, -1.0]
    if what == "1d":
        xs = np.array(c.pick("positions", [list(q) for k in (1, 2, 3) for q in itertools.product(one, repeat=k)]))
        rows = [[x] for x in xs]
        cols = [feats]
    else:
        if jac:
            raise Skip()        # the mean over several derivatives is documented nowhere
        xs = np.array(c.pick("positions", [[list(r) for r in q] for k in (1, 2) for q in itertools.islice(itertools.product(itertools.product(one[:2], repeat=len(feats)), repeat=k), 40)]))
        rows, cols = xs, feats
    Y = np.empty((len(rows), N))
    for a, r in enumerate(rows):
        Z = X.astype(float)
        Z[:, cols] = r
        Y[a] = call(Z)[:, feats] if jac else call(Z)
    kept = X.copy(), xs.copy()
    for name, flag in (("vectorized", "model_returns_jac"), ("non_vectorized", "is_jac" if what == "nd" else "model_returns_jac")):
        f = getattr(G, "pdp_%s_%s" % (what, name))
        eq(f(call, X, xs, feats, False, **{flag: jac}), Y.mean(axis=1), "pdp_%s_%s" % (what, name), 1e-9)
        got = f(call, X, xs, feats, True, **{flag: jac})
        expect(isinstance(got, tuple) and len(got) == 3, "three answers with heterogeneity, got %s", type(got))
        for g, w, n in zip(got, (Y.mean(axis=1), Y.std(axis=1), Y.std(axis=1) / math.sqrt(N)), ("mean", "standard deviation", "standard error")):
            eq(g, w, "%s of pdp_%s_%s" % (n, what, name), 1e-9)
        if what == "1d":
            eq(f(call, X, xs, feats, False, **{flag: jac}, return_all=True), Y, "all curves", 1e-9)
            if not jac:
                eq(f(m.f, X, xs, feats, False, model_returns_jac=False, return_all=True, ask_for_derivatives=True), np.stack([m.jac(np.where(np.arange(D) == feats, x, X))[:, feats] for x in xs]), "derivatives", 1e-6)
        expect(np.array_equal(kept[0], X) and np.array_equal(kept[1], xs), "an argument was modified")
        c.op(2)
    c.state(Y)


BOUNDS = ("every increasing list of 2-4 edges over {0, 1/2, 1, 2, 3} x every 1-3 (thorough: 4) instances on, between and (where refused) outside the edges x effects x storages; every 1-6 values with gaps; "
          "accumulation at every edge, mid-point and outside, squared or not; numerical Jacobians with four steps; partial dependence on every ordered choice of features at every list of up to 3 positions; feature types of every column of up to 4 rows x limits")
ASSUMPTIONS = ["fill_nans is given at least one number", "compute_bin_variance is given the bin means of the same data", "finite differences with the default step to 2e-6"]


def scenarios(tier):
    return [Scenario("bins", bins), Scenario("filter", filtering), Scenario("gaps", filling), Scenario("accumulate", accumulate), Scenario("local-effects", local_effects), Scenario("jacobian", jacobian), Scenario("feature-types", types), Scenario("averages", averages)]
