"""C24: a model that fails leaves no trace.  Fault injection at every call of the model."""
import itertools

import matplotlib.pyplot as plt
import numpy as np

import effector.interaction as inter
from mc import gen
from mc.common import GLOBAL, REGIONAL, make, make_regional, expect, figure, captured, is_pdp, is_ale
from mc.engine import Scenario, Skip, Opt
from mc.history import observe, difference
from mc.checks import c08, c14

SHAP = True


class Fault(Exception):
    pass


class Interrupt(BaseException):
    """like KeyboardInterrupt: not an Exception"""


class Faulty:
    """a model (and Jacobian) whose n-th call from now fails"""

    def __init__(self, m, kind=Fault):
        self.m, self.left, self.calls, self.kind, self.mc_name = m, None, 0, kind, m.mc_name
        self.raised = None

    def _tick(self):
        self.calls += 1
        if self.left is not None:
            if self.left == 0:
                self.left = None
                self.raised = self.kind("the model fails")
                raise self.raised
            self.left -= 1

    def f(self, X):
        self._tick()
        return self.m.f(X)

    def jac(self, X):
        self._tick()
        return self.m.jac(X)


def fails(fm, k, call):
    """runs the call with the model failing at its k-th query; the failure must come through"""
    fm.left, fm.raised = k, None
    try:
        call()
    except BaseException as e:
        expect(fm.raised is not None, "raises %s although the model did not fail", type(e).__name__)
        expect(e is fm.raised, "the failure of the model was turned into %s: %s", type(e).__name__, str(e)[:200])
        return
    finally:
        fm.left = None
    expect(False, "the failure of the model was swallowed")


MEMO = {}


def compare(kind, o, fresh, qs, s, tol, what):
    """the feature's queries answer as after one of the possible last fits; returns the messages of the closest"""
    got = [observe(q, o) for q in qs]
    bad = None
    for cand in s:
        for q, g in zip(qs, got):
            key = (kind, cand, q.name)
            if key not in MEMO:
                n = fresh()
                for p in q.setup(cand):
                    p.run(n)
                MEMO[key] = observe(q, n)
            d = difference(g, MEMO[key], tol)
            if d is not None:
                bad = bad or "%s: %s: %s" % (what, q.name, d)
                break
        else:
            return
    expect(False, "%s", bad)


def count(build, hist, op, fm):
    """model calls of the operation after the history"""
    o = build()
    for h in hist:
        h.run(o)
    n = fm.calls
    op.run(o)
    return fm.calls - n


COUNTS = {}


def global_effects(c):
    kind = c.pick("method", GLOBAL)
    X = c08.dataset("16x2")
    fm = Faulty(gen.poly(2), c.pick("failure", [Fault, Interrupt]) if kind in ("PDP", "ALE") or c.tier == "thorough" else Fault)
    effects = fm.m.jac(X) if kind == "RHALE-eff" else None
    build = lambda: make(kind, X, fm, effects=effects)
    hist = c.pick("before", [Opt("nothing", []), Opt("fit(0,#0) fit(1,#0)", [c08.fit_op(kind, 0, 0, False), c08.fit_op(kind, 1, 0, True)]), Opt("fit(all,#1)", [c08.fit_op(kind, "all", 1, "zero_start")])])
    qs = [c08.queries(kind, f, X, c.tier) for f in (0, 1)]
    ops = [c08.fit_op(kind, "all", 1, None), c08.fit_op(kind, "all", 0, True), c08.fit_op(kind, 0, 1, "zero_start"), c08.fit_op(kind, 0, 0, False)] + qs[0]
    op = c.pick("failing call", [Opt(o.name, o) for o in ops])
    key = (kind, tuple(h.name for h in hist), op.name)
    if key not in COUNTS:
        COUNTS[key] = count(build, hist, op, fm)
    if not COUNTS[key]:
        raise Skip()
    k = c.pick("fails at query", range(COUNTS[key]))
    o = build()
    s = (None, None)
    for h in hist:
        h.run(o)
        s = h.spec(s)
    fails(fm, k, lambda: op.run(o))
    s2 = op.spec(s) if op.spec else s
    tol = 1e-5 if kind.endswith("num") else 1e-7
    fresh = lambda: make(kind, X, fm.m, effects=effects)
    order = c.pick("then", ["queries", "again"])
    if order == "again":                 # asking again works, and has its effect
        op.run(o)
        s = s2
        c.op()
    for f in (1, 0):
        compare(kind, o, fresh, qs[f], [tuple(t if g == f else None for g in (0, 1)) for t in {s[f], s2[f]}], tol, "feature %d" % f)
        c.op(len(qs[f]))
    c.op(len(hist) + 1)
    c.state(kind, k, s, s2)


def regional_effects(c):
    quick = c.tier == "quick"
    kind = c.pick("method", [k for k in REGIONAL if not quick or k not in ("dPDP-num", "RHALE-num")])
    X = c14.data()
    fm = Faulty(gen.poly(3))
    effects = -0.5 * fm.m.jac(X)

    def build(m=fm):
        return make_regional(kind, X, m, effects=effects, nof_instances="all", cat_limit=4)
    hist = c.pick("before", [Opt("fit(0,#0)", [c14.fit_op(kind, 0, 0)]), Opt("nothing", [])] if kind != "SHAP" or not quick else [Opt("fit(0,#1)", [c14.fit_op(kind, 0, 1)])])
    qs = {f: [q for q in c14.queries(kind, f, X, c.tier) if not quick or q.name.split("(")[0] in ("eval[1]", "node[2,scaled]", "show", "show[full,scaled]", "plot[1]", "describe[full,scaled]")] for f in (0, 1)}
    ops = [c14.fit_op(kind, 0, 1), c14.fit_op(kind, 0, 2)] + ([c14.fit_op(kind, "all", 0)] if kind != "SHAP" else []) + (qs[0] if hist else [])
    op = c.pick("failing call", [Opt(o.name, o) for o in ops])
    key = (kind, tuple(h.name for h in hist), op.name)
    if key not in COUNTS:
        COUNTS[key] = count(build, hist, op, fm)
    n = COUNTS[key]
    if not n:
        raise Skip()
    ks = range(n) if not quick or n <= 40 else sorted(set(range(10)) | set(range(0, n, -(-n // 30))) | set(range(n - 10, n)))
    k = c.pick("fails at query", ks)
    o = build()
    s = (None,) * 3
    for h in hist:
        h.run(o)
        s = h.spec(s)
    fails(fm, k, lambda: op.run(o))
    s2 = op.spec(s) if op.spec else s
    tol = 1e-5 if kind.endswith("num") else 1e-7
    for f in (0, 1):
        if s[f] is None and (s2[f] is None or s[f] != s2[f]):
            # never fitted before: either still unfitted or completely fitted
            if not o.is_fitted[f] or s2[f] is None:
                for q in qs[f]:
                    if q.name.startswith(("node", "show", "describe")):
                        continue
                expect(not o.is_fitted[f] or s2[f] is not None, "feature %d counts as fitted", f)
                continue
        cands = [tuple(t if g == f else None for g in range(3)) for t in {s[f], s2[f]} if t is not None]
        compare(kind, o, lambda: build(fm.m), qs[f], cands, tol, "feature %d" % f)
        c.op(len(qs[f]))
    op.run(o)                       # asking again works
    s = s2
    for f in (0, 1):
        if s[f] is not None:
            compare(kind, o, lambda: build(fm.m), qs[f], [tuple(t if g == f else None for g, t in enumerate(s))], tol, "after asking again, feature %d" % f)
    c.op(len(hist) + 2)
    c.state(kind, k, s2)


def scores(c):
    what = c.pick("score", ["H-index", "REPID"])
    X = c08.dataset("16x3")[:9]
    fm = Faulty(gen.poly(3))
    mk = (lambda m: inter.HIndex(X, m.f, nof_instances="all")) if what == "H-index" else (lambda m: inter.REPID(X, m.f, m.jac, "all"))

    def plot(**kw):
        def run(o):
            with figure(), captured():
                o.plot(**kw)
        return run

    def fit(**kw):
        def run(o):
            with captured():
                o.fit(**kw)
        return run
    ops = {"rest(0)": lambda o: o.eval_one_vs_all(0), "rest(2)": lambda o: o.eval_one_vs_all(2), "fit": fit(), "plot": plot()}
    if what == "H-index":
        ops.update({"pair(0,1)": lambda o: o.eval_pairwise(0, 1), "pair(2,0)": lambda o: o.eval_pairwise(2, 0), "fit pairs": fit(one_vs_all=False), "plot rest": plot(interaction_matrix=False)})
    before = c.pick("before", [None, "rest(0)", "fit"] + (["pair(0,1)"] if what == "H-index" else []))
    name = c.pick("failing call", list(ops))
    key = (what, before, name)
    if key not in COUNTS:
        o = mk(fm)
        if before:
            ops[before](o)
        n = fm.calls
        ops[name](o)
        COUNTS[key] = fm.calls - n
    if not COUNTS[key]:
        raise Skip()
    k = c.pick("fails at query", range(COUNTS[key]))
    o = mk(fm)
    if before:
        ops[before](o)
    fails(fm, k, lambda: ops[name](o))
    c.op(3)

    def everything(o, how):
        out = []
        if how == "plot":
            with figure(), captured():
                o.plot()
                for n in plt.get_fignums():
                    for ax in plt.figure(n).axes:
                        out += [np.array([p.get_width() for p in ax.patches]), [np.array(m.get_array(), dtype=float) for m in ax.images]]
        out += [float(o.eval_one_vs_all(f)) for f in range(3)]
        if what == "H-index":
            out += [float(o.eval_pairwise(i, j)) for i in range(3) for j in range(3)]
        if how == "fit":
            with captured():
                o.fit()
            out += [np.array(o.one_vs_all_matrix, float)]
            if what == "H-index":
                out += [np.array(o.interaction_matrix, float)]
        return out
    how = c.pick("then", ["single", "plot", "fit"])
    key = (what, how)
    if key not in MEMO:
        MEMO[key] = everything(mk(fm.m), how)
    d = difference(everything(o, how), MEMO[key], 1e-9)
    expect(d is None, "after the failure: %s", d)
    c.state(what, k, how)


BOUNDS = ("the model (or Jacobian) fails at every single query of: fits with two option sets, evaluations in three centerings and plots of 8 global methods after 3 histories (twice: exception and interrupt); "
          "fits, evaluations, node queries, reports and plots of the regional methods (quick: every query up to 40, beyond that the first and last ten and thirty in between; thorough: all); H-index and REPID requests after 3-4 histories")
ASSUMPTIONS = ["the failure is raised by the model or Jacobian (not by numpy or matplotlib)", "figures left open by a failing plot are not looked at"]


def scenarios(tier):
    return [Scenario("global-effects", global_effects), Scenario("regional-effects", regional_effects), Scenario("interaction-scores", scores)]
