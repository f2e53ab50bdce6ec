"""C20: H-index and REPID scores equal their definitions."""
import itertools

import numpy as np

from mc import gen, ref
from mc.boot import effector, plt
from mc.common import expect, same, figure, captured
from mc.engine import Scenario, Skip, Opt, Violation
from mc.history import drawn
import effector.interaction as inter


def pd(f, X, cols, at):
    """centred partial dependence of the columns at the rows of `at`"""
    out = []
    for r in at:
        Z = X.astype(float).copy()
        Z[:, cols] = r[cols]
        out.append(np.mean(f(Z)))
    out = np.array(out)
    return out - out.mean()


def pairwise(f, X, i, j):
    if i == j:
        return 0.0
    a = pd(f, X, [i, j], X)
    n, d = np.mean((a - pd(f, X, [i], X) - pd(f, X, [j], X)) ** 2), np.mean(a ** 2)
    return None if d < 1e-12 else n / d


def versus_rest(f, X, i):
    D = X.shape[1]
    y = f(X.astype(float))
    y = y - y.mean()
    d = np.mean(y ** 2)
    n = np.mean((y - pd(f, X, [i], X) - pd(f, X, [k for k in range(D) if k != i], X)) ** 2)
    return None if d < 1e-12 else n / d


def repid(f, X, i):
    lo, hi = X[:, i].min(), X[:, i].max()
    t = lo + (np.arange(20) + 0.5) * (hi - lo) / 20
    c = ref.ice(f, X, i, t) - ref.ice(f, X, i, [lo])
    return float(np.mean(np.std(c, axis=1)))


def models(D):
    return [gen.poly(D), gen.prod(D), gen.additive(D), gen.cond(D, 1, 0.3), gen.step(D), gen.intout(D), gen.lin(D)]


def agree(got, want, what):
    if want is not None:
        same([got], [want], what, 1e-7)


def sets():
    i = np.arange(10)
    return [gen.Data("10x3", np.stack([(i * 3 % 10) / 4.0, (i * 7 % 10) / 5.0 - 1, np.cos(i)], axis=1)), gen.Data("10x2 ties", np.stack([(i % 4) * 0.5, (i % 3) * 1.0], axis=1)),
            gen.Data("10x2 integers", np.stack([i * 3 % 5, i * 7 % 4], axis=1)), gen.Data("7x4", np.stack([np.sin((k + 1) * i[:7]) + k for k in range(4)], axis=1))]


def exhaustive(c):
    """every pair of columns over a small alphabet"""
    n = 5 if c.tier == "thorough" else 4
    a = c.pick("first", [v for v in gen.columns([0.0, 1.0, 2.0], n) if len(set(v)) > 1])
    b = c.pick("second", [v for v in gen.columns([-1.0, 0.5], n) if len(set(v)) > 1])
    m = c.pick("model", [gen.poly(2), gen.prod(2), gen.additive(2)])
    X = np.stack([a, b], axis=1)
    h = inter.HIndex(X.copy(), m.f, nof_instances="all")
    agree(h.eval_pairwise(0, 1), pairwise(m.f, X, 0, 1), "pairwise")
    agree(h.eval_one_vs_all(0), versus_rest(m.f, X, 0), "one versus rest")
    r = inter.REPID(X.copy(), m.f, None, "all")
    agree(r.eval_one_vs_all(1), repid(m.f, X, 1), "REPID")
    c.op(3)
    if m.mc_name == "additive":
        v = pairwise(m.f, X, 0, 1)
        expect(v is None or v < 1e-12, "reference: additive model with interaction %r", v)
    c.state(h.interaction_matrix)


def shaped(c):
    d = c.pick("data", sets())
    D = d.X.shape[1]
    m = c.pick("model", models(D))
    X = d.X
    h = inter.HIndex(X.copy(), m.f, nof_instances=c.pick("instances", ["all", 50]))
    r = inter.REPID(X.copy(), m.f, m.jac, "all")
    order = c.pick("order", ["fit", "single", "plot"])
    with captured(), figure():
        if order == "fit":
            h.fit()
            r.fit()
        elif order == "plot":
            h.plot()
            r.plot()
        for i in range(D):
            for j in reversed(range(D)):
                agree(h.eval_pairwise(i, j), pairwise(m.f, X, i, j), "pairwise %d,%d" % (i, j))
                c.op()
            agree(h.eval_one_vs_all(i), versus_rest(m.f, X, i), "versus rest %d" % i)
            agree(r.eval_one_vs_all(i), repid(m.f, X, i), "REPID %d" % i)
            if m.mc_name in ("additive", "lin"):
                w = versus_rest(m.f, X, i)
                expect(w is None or abs(h.eval_one_vs_all(i)) < 1e-9, "additive model with an interaction")
                expect(abs(r.eval_one_vs_all(i)) < 1e-9, "additive model with an interaction")
            c.op(2)
    c.state(h.interaction_matrix, r.one_vs_all_matrix)


def histories(c):
    """every sequence of requests; plots draw the scores"""
    X = sets()[0].X if c.pick("data", ["10x3", "10x2 ties"]) == "10x3" else sets()[1].X
    D = X.shape[1]
    m = gen.poly(D)
    P = {(i, j): pairwise(m.f, X, i, j) for i in range(D) for j in range(D)}
    V = [versus_rest(m.f, X, i) for i in range(D)]
    R = [repid(m.f, X, i) for i in range(D)]
    h = inter.HIndex(X.copy(), m.f, nof_instances="all")
    r = inter.REPID(X.copy(), m.f, None, "all")
    ops = [("pair(0,1)",), ("pair(1,0)",), ("pair(0,0)",), ("rest(1)",), ("fit pairs",), ("fit rest",), ("fit",), ("plot pairs",), ("plot rest",), ("plot",), ("repid(1)",), ("repid fit(0)",), ("repid plot",)]
    for k in range(4 if c.tier == "thorough" else 3):
        op = c.pick("call %d" % k, [o[0] for o in ops])
        c.op()
        with captured():
            if op.startswith("pair"):
                i, j = int(op[5]), int(op[7])
                agree(h.eval_pairwise(i, j), P[i, j], op)
            elif op == "rest(1)":
                agree(h.eval_one_vs_all(1), V[1], op)
            elif op == "repid(1)":
                agree(r.eval_one_vs_all(1), R[1], op)
            elif op == "repid fit(0)":
                r.fit(0)
            elif op.startswith("fit"):
                h.fit(pairwise_matrix=op != "fit rest", one_vs_all=op != "fit pairs")
            else:
                with figure():
                    if op.startswith("repid"):
                        r.plot()
                        bars(R)
                    else:
                        h.plot(interaction_matrix=op != "plot rest", one_vs_all=op != "plot pairs")
                        figs = [plt.figure(n) for n in plt.get_fignums()]
                        expect(len(figs) == (2 if op == "plot" else 1), "%d figures", len(figs))
                        if op != "plot rest":
                            im = figs[0].axes[0].images[0].get_array()
                            for i, j in P:
                                if i != j:
                                    agree(im[i, j], P[i, j], "drawn %d,%d" % (i, j))
                        if op != "plot pairs":
                            bars(V, figs[-1])
    with captured():
        for i, j in P:
            agree(h.eval_pairwise(i, j), P[i, j], "afterwards: pair %d,%d" % (i, j))
        for i in range(D):
            agree(h.eval_one_vs_all(i), V[i], "afterwards: rest %d" % i)
            agree(r.eval_one_vs_all(i), R[i], "afterwards: repid %d" % i)
    c.state(h.interaction_matrix)


def bars(want, fig=None):
    ax = (fig or plt.gcf()).axes[0]
    same([p.get_width() for p in ax.patches], want, "drawn bars", 1e-7)


def subset(c):
    """with fewer instances, the scores are those of the selected instances"""
    X = np.concatenate([sets()[0].X, sets()[0].X[::-1] * 1.5 + 0.25])
    m = gen.poly(3)
    n = c.pick("instances", [5, 19, 20, 21, 1000])
    c.pick("repetition", list(range(5)))
    h = inter.HIndex(X, m.f, nof_instances=n)
    Y = h.data
    expect(len(Y) == min(n, 20) and len({tuple(r) for r in Y} - {tuple(r) for r in X}) == 0 and len({tuple(r) for r in Y}) == len(Y), "instances in use")
    agree(h.eval_pairwise(0, 2), pairwise(m.f, Y, 0, 2), "pairwise")
    agree(h.eval_one_vs_all(2), versus_rest(m.f, Y, 2), "versus rest")
    r = inter.REPID(X, m.f, None, n)
    agree(r.eval_one_vs_all(0), repid(m.f, r.data, 0), "REPID")
    c.op(3)
    c.state(Y)


def large(c):
    i = np.arange(c.pick("instances", [330, 420]))
    X = np.stack([(i * 7 % 97) / 50.0, (i * 11 % 89) / 40.0 - 1.0], axis=1)
    m = gen.poly(2)
    r = inter.REPID(X, m.f, None, "all")
    lo, hi = X[:, 0].min(), X[:, 0].max()
    t = lo + (np.arange(20) + 0.5) * (hi - lo) / 20
    cv = np.stack([m.f(np.stack([np.full(len(X), v), X[:, 1]], axis=1)) for v in t]) - m.f(np.stack([np.full(len(X), lo), X[:, 1]], axis=1))
    agree(r.eval_one_vs_all(0), float(np.mean(np.std(cv, axis=1))), "REPID")
    c.op()
    c.state(len(X))


def many(c):
    """more than ten features; more instances than any block of model calls"""
    N, D = c.pick("N, D", [(14, 11), (130, 3)])
    i = np.arange(N)
    X = np.stack([((i * i * (d + 1) + 3 * i) % (7 + d)) / 4.0 - 0.5 * (d % 3) for d in range(D)], axis=1)
    m = gen.poly(D)
    first = c.pick("asked first", ["fit", "single"])
    h = inter.HIndex(X.copy(), m.f, nof_instances="all")
    r = inter.REPID(X.copy(), m.f, m.jac, "all")
    with captured(), figure():
        if first == "fit":
            h.fit()
            r.fit("all")
        pairs = [(0, 1), (1, 0), (0, 10), (10, 1), (9, 10), (8, 2)] if D > 10 else [(0, 1), (2, 0), (1, 2)]
        for a, b in pairs:
            agree(h.eval_pairwise(a, b), pairwise(m.f, X, a, b), "pairwise %d,%d" % (a, b))
        for a in ([0, 1, 9, 10] if D > 10 else range(D)):
            agree(h.eval_one_vs_all(a), versus_rest(m.f, X, a), "versus rest %d" % a)
            agree(r.eval_one_vs_all(a), repid(m.f, X, a), "REPID %d" % a)
            c.op(2)
    c.state(N, first)


BOUNDS = ("up to 11 features and 420 instances; every pair of non-constant columns (3^4 x 2^4; thorough 3^5 x 2^5) x 3 models; 4 data sets x 7 models x 3 ways of asking; every sequence of 3 (thorough: 4) of 13 calls on one "
          "object, then every score")
ASSUMPTIONS = ["scores whose normalising variance is zero are undefined", "H-index one-versus-rest centres the model output, as in Friedman and Popescu (2008)"]


def scenarios(tier):
    return [Scenario("all-columns", exhaustive), Scenario("shaped", shaped), Scenario("histories", histories), Scenario("subsampled", subset), Scenario("large", large), Scenario("many-features", many)]
