"""C25: explanations running at the same time do not disturb each other.  All schedules of two threads with one or two
preemptions, and models that explain something themselves."""
import numpy as np

import effector.interaction as inter
from effector.partitioning import DataTransformer
import effector.binning_methods as bm
from mc import gen
from mc.common import GLOBAL, REGIONAL, make, make_regional, expect, binning as binning_method, is_ale, is_pdp
from mc.engine import Scenario, Skip, Opt
from mc.history import difference
from mc.checks.c12 import fit_args, BASE
from mc.interleave import Scheduler, alone

SHAP = True


def data(w):
    i = np.arange(12)
    X = np.stack([(i * 5 % 12) / 4.0, (i % 3) * 1.0, (i * 7 % 12) / 6.0 - 1.0], axis=1)
    return X if w == 0 else np.stack([X[:, 2] * 2, X[:, 0] + 1, (i % 2) * 1.0], axis=1)


def spec_of(kind, w):
    if kind == "ALE":
        return ("fixed", dict(nof_bins=2 + w, min_points_per_bin=0, cat_limit=0))
    if kind == "RHALE-eff":
        return ("dp", dict(max_nof_bins=3 + w, min_points_per_bin=2 - w, discount=0.25, cat_limit=0))
    return ("greedy", dict(init_nof_bins=4 + 2 * w, min_points_per_bin=2 - w, discount=0.25, cat_limit=0))


def session(kind, w, m=None, common=None):
    """one complete use of the library, as a function without arguments; `common` holds objects used by both threads"""
    X = data(w)
    m = m or [gen.poly(3), gen.prod(3)][w]
    E = (m.jac(X) * (1.0 if w else -0.5)) if "eff" in kind else None
    name = kind.split()[-1]
    kw = {}
    binning = binning_method
    if common is not None:
        X, E = common["X"], common["E"] if E is not None else None
        kw = dict(feature_names=common["names"])
        if kind.startswith("global"):
            kw["axis_limits"] = common["L"]
        binning = lambda spec: common["specs"][spec[0]]
    if kind.startswith("global"):
        xs = np.array([0.25, 0.5 + w, 1.0])

        def run():
            o = make(name, X, m, effects=E, nof_instances="all", **kw)
            o.fit([0, 1] if w else "all", **(dict(binning_method=binning(spec_of(name, w))) if is_ale(name) else dict(points_for_centering=5 + w)))
            return [o.eval(f, xs, True, ce) for f, ce in ((0, False), (1, "zero_start" if w else True))]
        return run
    if kind.startswith("regional"):
        p = dict(BASE, depth=1 + (w == 0 and name != "SHAP"), npos=2, minp=3 + w, thres=0.0, small=0.0, spec=spec_of(name, w) if name in ("ALE", "RHALE-jac") else ("fixed", dict(nof_bins=2, min_points_per_bin=1 + w, cat_limit=0)), split_cat=bool(w), foc=[2, 1])

        def run():
            o = make_regional(name, X, m, effects=E, nof_instances="all", cat_limit=4 - w, **kw)
            o.fit(0, **fit_args(p, name))
            return [[(n.name, n.data["nof_instances"], n.data["heterogeneity"]) for n in o.tree_full["feature_0"].nodes],
                    [(n.name, n.data["nof_instances"]) for n in o.tree_pruned["feature_0"].nodes], o.eval(0, 0, np.array([0.5, 1.0]), True, True)]
        return run
    if kind == "H-index":
        return lambda: (lambda h: [h.eval_pairwise(0, 1 + w), h.eval_one_vs_all(w)])(inter.HIndex(X, m.f, nof_instances="all"))
    if kind == "REPID":
        return lambda: inter.REPID(X, m.f, m.jac, "all").eval_one_vs_all(w)
    if kind == "bins":
        L = np.stack([X.min(axis=0), X.max(axis=0)])
        return lambda: [bm.find_limits(X, m.jac(X), f, L, binning(s)).limits for f in (0, 2) for s in (spec_of("ALE", w), spec_of("RHALE", w), spec_of("RHALE-eff", w))]
    if kind == "transformer":
        S = common["splits"] if common is not None else {"feat_0": [dict(type="cont", feature=1, position=1.0 + w)], "feat_1": [dict(type="cat", feature=2, position=1.0)] * w, "feat_2": []}
        return lambda: (lambda t: [t.transform(X), list(t.new_names)])(DataTransformer(S))
    raise KeyError(kind)


KINDS = ["global " + k for k in GLOBAL] + ["regional " + k for k in ("PDP", "ALE", "RHALE-eff", "dPDP-jac", "SHAP", "RHALE-jac")] + ["H-index", "REPID", "bins", "transformer"]
SOLO = {}


def solo(kind, w, grain):
    key = (kind, w, grain)
    if key not in SOLO:
        SOLO[key] = alone(session(kind, w), grain)
    return SOLO[key]


def partner(kind):
    """what runs next to it: the same kind of work on other data, or another kind"""
    other = {"global PDP": "regional PDP", "global ALE": "regional ALE", "global RHALE-eff": "bins", "global SHAP": "global PDP", "regional PDP": "global dPDP-jac", "regional ALE": "global ALE",
             "regional RHALE-eff": "global RHALE-eff", "H-index": "global PDP", "REPID": "H-index", "bins": "global RHALE-eff"}
    return [kind] + ([other[kind]] if kind in other else [])


def check(kind, kind2, sched, grain):
    want = [solo(kind, 0, grain)[0], solo(kind2, 1, grain)[0]]
    s = Scheduler([session(kind, 0), session(kind2, 1)], sched, grain)
    got = s.run()
    for w in (0, 1):
        d = difference(got[w], want[w], 1e-5 if (kind, kind2)[w].endswith("num") else 1e-9)
        expect(d is None, "switching at %s: %s next to %s answers differently from alone: %s", s.switches, (kind, kind2)[w], (kind, kind2)[1 - w], d)
    return s


def one_preemption(c):
    """thread 1 runs completely at the k-th line of thread 0, for every k"""
    kind = c.pick("thread 0", [k for k in KINDS if c.tier == "thorough" or k not in ("regional SHAP", "regional RHALE-jac")])
    kind2 = c.pick("thread 1", partner(kind) if c.tier == "thorough" or "SHAP" not in kind else [kind])
    n = solo(kind, 0, "line")[1]
    step = 1 if c.tier == "thorough" else max(1, n // (60 if "SHAP" in kind + kind2 else 1500 if "regional" not in kind + kind2 else 400))
    # every line of the program text is a switch point at its first occurrence, repetitions are thinned by `step`
    points = range(n) if step == 1 else sorted(first_lines(kind) | set(range(0, n, step)))
    k = c.pick("switch after", points)
    s = check(kind, kind2, [k], "line")
    c.op(2)
    c.state(kind, kind2, s.switches, k)


FIRST = {}


def first_lines(kind):
    """event numbers at which a line of the library is reached for the first (and second) time"""
    if kind not in FIRST:
        seen, out = {}, set()

        class S(Scheduler):
            def _point(self, me, frame):
                key = (frame.f_code.co_filename, frame.f_lineno)
                seen[key] = seen.get(key, 0) + 1
                if seen[key] <= (1 if "SHAP" in kind else 2):
                    out.add(self.events[me])
                Scheduler._point(self, me, frame)
        S([session(kind, 0)], [], "line").run()
        FIRST[kind] = out
    return FIRST[kind]


def two_preemptions(c):
    """0 runs until its j-th function entry, 1 until its k-th, 0 to the end, 1 to the end"""
    kind = c.pick("thread 0", [k for k in KINDS if "SHAP" not in k and (c.tier == "thorough" or k in ("global PDP", "global ALE", "global RHALE-eff", "regional RHALE-eff", "H-index", "bins"))])
    kind2 = c.pick("thread 1", partner(kind)[:1] if c.tier != "thorough" else partner(kind))
    n, m = solo(kind, 0, "call")[1], solo(kind2, 1, "call")[1]
    cap = 40 if c.tier != "thorough" else 400
    j = c.pick("first switch", range(n) if n <= cap else sorted({int(x) for x in np.linspace(0, n - 1, cap)}))
    k = c.pick("second switch", range(m) if m <= cap else sorted({int(x) for x in np.linspace(0, m - 1, cap)}))
    s = check(kind, kind2, [j, k], "call")
    c.op(2)
    c.state(kind, kind2, s.switches, j, k)


def same_object(c):
    """two threads evaluate one fitted object (same centering as fitted): every single preemption"""
    kind = c.pick("method", [k for k in GLOBAL if c.tier == "thorough" or not k.endswith("num")])
    ce = c.pick("centering", [False, "zero_integral"])
    X = data(0)
    m = gen.poly(3)
    E = m.jac(X) if "eff" in kind else None
    xs = [np.array([0.25, 1.0]), np.array([0.5, 1.5, 0.0])]
    f = c.pick("features", [(0, 0), (0, 1)])

    def fitted():
        o = make(kind, X, m, effects=E)
        o.fit("all", centering=ce, **(dict(binning_method=binning_method(spec_of(kind, 0))) if is_ale(kind) else {}))
        return o

    def body(o, w):
        return lambda: o.eval(f[w], xs[w], True, ce)
    key = ("same", kind, ce, f)
    if key not in SOLO:
        SOLO[key] = [alone(body(fitted(), w)) for w in (0, 1)]
    k = c.pick("switch after", range(SOLO[key][0][1]))
    o = fitted()
    s = Scheduler([body(o, 0), body(o, 1)], [k])
    got = s.run()
    for w in (0, 1):
        d = difference(got[w], SOLO[key][w][0], 1e-5 if kind.endswith("num") else 1e-9)
        expect(d is None, "switching at %s: evaluation %d differs: %s", s.switches, w, d)
    c.op(3)
    c.state(kind, ce, f, s.switches)


def objects():
    X = data(0)
    return dict(X=X, E=gen.poly(3).jac(X) * 2, names=["a", "b", "c"], L=np.stack([X.min(axis=0) - 0.5, X.max(axis=0) + 0.5]), specs={k: binning_method(spec_of(n, 0)) for k, n in (("fixed", "ALE"), ("greedy", "RHALE"), ("dp", "RHALE-eff"))},
                splits={"feat_0": [dict(type="cont", feature=1, position=1.0)], "feat_1": [dict(type="cat", feature=2, position=1.0), dict(type="cont", feature=0, position=0.5)], "feat_2": []})


def shared_inputs(c):
    """two threads explain two models on the very same data, effects, limits, names, binning objects"""
    kind = c.pick("work", ["bins", "transformer", "H-index", "REPID"] + ["global " + k for k in GLOBAL] + ["regional " + k for k in ("RHALE-eff", "ALE", "PDP", "RHALE-num")])
    for w in (0, 1):
        if ("shared", kind, w) not in SOLO:
            SOLO["shared", kind, w] = alone(session(kind, w, None, objects()), "line")
    n = SOLO["shared", kind, 0][1]
    cap = 10 ** 9 if c.tier == "thorough" else 40 if "SHAP" in kind else 250 if "regional" in kind else 700
    k = c.pick("switch after", range(n) if n <= cap else sorted({int(x) for x in np.linspace(0, n - 1, cap)}))
    o = objects()
    s = Scheduler([session(kind, 0, None, o), session(kind, 1, None, o)], [k], "line")
    got = s.run()
    for w in (0, 1):
        d = difference(got[w], SOLO["shared", kind, w][0], 1e-5 if kind.endswith("num") else 1e-9)
        expect(d is None, "switching at %s: %s %d on shared inputs answers differently from alone: %s", s.switches, kind, w, d)
    c.op(2)
    c.state(kind, s.switches, k)


class Nested(gen.Model):
    """a model that runs an explanation of its own at its k-th call"""

    def __init__(self, m, k, inside):
        self.__dict__.update(m.__dict__)
        self.inner, self.k, self.inside, self.got, self.calls = m, k, inside, None, 0

    def tick(self):
        self.calls += 1
        if self.calls == self.k + 1:
            self.got = ("ok", self.inside())

    def f(self, X):
        self.tick()
        return self.inner.f(X)

    def jac(self, X):
        self.tick()
        return self.inner.jac(X)


def nested(c):
    """a model that explains something itself while it is being explained, at every one of its calls"""
    kind = c.pick("outer", [k for k in KINDS if k not in ("bins", "transformer", "regional SHAP") or c.tier == "thorough"])
    kind2 = c.pick("inner", [kind] + [k for k in ("global PDP", "regional RHALE-eff", "global ALE", "bins") if k != kind])
    base = gen.poly(3)
    key = ("calls", kind)
    if key not in SOLO:
        m = Nested(base, -1, None)
        session(kind, 0, m)()
        SOLO[key] = m.calls
    n = SOLO[key]
    if n == 0:
        raise Skip()
    cap = 12 if "SHAP" in kind + kind2 else 40
    k = c.pick("at call", range(n) if n <= cap or c.tier == "thorough" else sorted({int(x) for x in np.linspace(0, n - 1, cap)}))
    m = Nested(base, k, session(kind2, 1))
    try:
        got = ("ok", session(kind, 0, m)())
    except Exception as e:
        got = ("raises", str(e))
    d = difference(got, solo(kind, 0, "line")[0], 1e-5 if kind.endswith("num") else 1e-9)
    expect(d is None, "the explanation of a model that explains: %s", d)
    d = difference(m.got, solo(kind2, 1, "line")[0], 1e-5 if kind2.endswith("num") else 1e-9)
    expect(d is None, "the explanation inside the model: %s", d)
    c.op(2)
    c.state(kind, kind2, k)


BOUNDS = ("two real threads under a controlled scheduler: every schedule with one preemption at line granularity inside the library (quick: every line at its first two occurrences and 60-1500 further ones) for 18 kinds of work "
          "next to the same kind on other data or another kind; every pair of preemptions at function entries (quick: up to 40 x 40 of them); two explanations sharing all of their inputs (data, effects, limits, names, binning objects), one preemption; two evaluations of one fitted object, every preemption; nested explanations at every model call")
ASSUMPTIONS = ["threads switch at line boundaries of the library's own code", "plots (pyplot keeps one current figure per process), printing and numpy's random state are outside the domain",
               "evaluations that have to refit the same object are not run concurrently"]


def scenarios(tier):
    return [Scenario("one-preemption", one_preemption), Scenario("two-preemptions", two_preemptions), Scenario("shared-inputs", shared_inputs), Scenario("one-object", same_object), Scenario("nested", nested)]
