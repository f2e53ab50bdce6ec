"""C15: the caller's inputs are never modified, and their storage does not matter."""
import copy

import numpy as np

import effector.binning_methods as bm
import effector.interaction as inter
from effector.partitioning import DataTransformer
from mc import gen
from mc.boot import effector
from mc.common import GLOBAL, REGIONAL, make, make_regional, expect, same, figure, captured, binning, is_ale, is_pdp
from mc.engine import Scenario, Skip, Opt
from mc.history import Op, observe, difference, drawn, printed

SHAP = True


# ---------------------------------------------------------------- storage variants of the same values
def frozen(a):
    a = np.array(a)
    a.flags.writeable = False
    return a


def strided(a):
    a = np.asarray(a)
    big = np.full(tuple(2 * s for s in a.shape), 77, dtype=a.dtype)
    v = big[tuple(slice(None, None, 2) for _ in a.shape)]
    v[...] = a
    return v


def flipped(a):
    return np.ascontiguousarray(np.asarray(a)[::-1])[::-1]


STORE = {"float64": lambda a: np.array(a, dtype=float), "int64": lambda a: np.array(a, dtype=np.int64), "int32": lambda a: np.array(a, dtype=np.int32),
         "uint8": lambda a: np.array(a, dtype=np.uint8), "bool": lambda a: np.array(a, dtype=bool), "float32": lambda a: np.array(a, dtype=np.float32), "fortran": lambda a: np.asfortranarray(np.array(a, dtype=float)),
         "strided": lambda a: strided(np.array(a, dtype=float)), "reversed": lambda a: flipped(np.array(a, dtype=float)), "read-only": lambda a: frozen(np.array(a, dtype=float)),
         "int strided read-only": lambda a: frozen_view(strided(np.array(a, dtype=int))), "big-endian": lambda a: np.array(a, dtype=">f8")}


def frozen_view(v):
    v.flags.writeable = False
    return v


def stores(a, skip=()):
    """the storages that can hold these values exactly"""
    out = []
    for n, f in STORE.items():
        if n in skip:
            continue
        b = f(a)
        if np.array_equal(np.asarray(b, dtype=float), np.asarray(a, dtype=float)):
            out.append(Opt(n, n))
    return out


class Watch:
    """remembers arguments and results, and checks that they stay as they were"""

    def __init__(self):
        self.items = []

    def __call__(self, name, v):
        self.items.append((name, v, copy.deepcopy(plain(v))))
        return v

    def check(self, after):
        for name, v, was in self.items:
            now = plain(v)
            d = None if identical(now, was) else "%s, was %s" % (now, was)
            expect(d is None, "%s: %s was modified: %s", after, name, d)


def plain(v):
    """value of an argument: arrays with their type, objects by their attributes"""
    if isinstance(v, np.ndarray):
        return (str(v.dtype), v.shape, v.tolist())
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if hasattr(v, "__dict__") and not callable(v):
        return {k: plain(x) for k, x in vars(v).items()}
    return v


def identical(a, b):
    return repr(a) == repr(b)


# ---------------------------------------------------------------- models
class During:
    """a model that looks at the caller's arrays whenever it is asked"""

    def __init__(self, m, **arrays):
        self.m, self.mc_name = m, m.mc_name
        self.arrays = [(k, v, v.tobytes()) for k, v in arrays.items() if v is not None]

    def look(self):
        for k, v, was in self.arrays:
            if v.tobytes() != was:
                raise Modified("while the model is asked, %s of the caller differs from what was passed" % k)

    def f(self, X):
        self.look()
        return self.m.f(X)

    def jac(self, X):
        self.look()
        return self.m.jac(X)


def own_array(D):
    """returns arrays that belong to the caller, the same ones in every call of the same size"""
    kept = {}

    def jac(X):
        return kept.setdefault(len(X), np.tile(np.array(gen.A[:D]), (len(X), 1)))
    m = gen.lin(D)
    m.jac = jac
    m.kept = kept
    return m


def view_model(D):
    """answers with a view of its argument"""
    m = gen.Model("view", lambda X: X[:, 0], lambda X: np.eye(D)[np.zeros(len(X), dtype=int)])
    m.f = lambda X: X[:, 0]
    return m


class Typed(gen.Model):
    def __init__(self, inner, typ):
        self.__dict__.update(inner.__dict__)
        self.mc_name, self.typ, self.inner = inner.mc_name + " " + typ, typ, inner

    def f(self, X):
        y = np.asarray(self.inner._f(np.asarray(X, dtype=float)))
        if self.typ == "int":
            expect(np.array_equal(y, np.round(y)), "harness: model is not integral")
        return {"int": lambda: y.astype(int), "float32": lambda: y.astype(np.float32), "read-only": lambda: frozen(y), "strided": lambda: strided(y), "bool": lambda: y > 0}[self.typ]()

    def jac(self, X):
        j = self.inner.jac(X)
        return {"int": lambda: j.astype(int), "float32": lambda: j.astype(np.float32), "read-only": lambda: frozen(j), "strided": lambda: strided(j), "bool": lambda: j}[self.typ]()


def floored(m):
    return gen.Model("floor of " + m.mc_name, lambda X: np.floor(m._f(X)), lambda X: np.floor(m._jac(X)))


def integral(D):
    def f(X):
        return 2 * X[:, 0] - X[:, 0] * X[:, D - 1] + X[:, D - 1] ** 2

    def jac(X):
        J = np.zeros(X.shape)
        J[:, 0] = 2 - X[:, D - 1] if D > 1 else 2
        J[:, D - 1] += -X[:, 0] + 2 * X[:, D - 1]
        return J
    return gen.Model("integral", f, jac)


# ---------------------------------------------------------------- data of integral values (in several ranges)
def integers(N, which="plain"):
    i = np.arange(N)
    X = np.stack([i * 5 % 7, (i * 3 % 4) + 1, i * 7 % 11], axis=1)
    return {"plain": X, "signed": X - 3, "large": X * 25, "binary": X % 2}[which][:, :3] * 1.0


EDGES = {"ALE": ("fixed", dict(nof_bins=3, min_points_per_bin=0, cat_limit=0)), "RHALE": ("greedy", dict(init_nof_bins=4, min_points_per_bin=2, discount=0.25, cat_limit=0))}


def session(kind, X, m, E, L, xs, w, seed_names=True, plots=True, feats=(0, 1)):
    """what one user sees: constructor, fit, evaluations and plots"""
    D = X.shape[1]
    m = During(m, data=X, effects=E, limits=L, positions=xs)
    names = w("feature_names", ["n%d" % d for d in range(D)])
    kw = dict(feature_names=names, target_name="t", nof_instances="all")
    if L is not None:
        kw["axis_limits"] = w("axis_limits", L)
    w("data", X)
    if E is not None:
        w("effects", E)
    w("positions", xs)
    o = make(kind, X, m, effects=E, **kw)
    w.check("constructor")
    fs = w("features", list(feats))
    out = {}
    if is_ale(kind):
        b = w("binning", binning(EDGES["ALE" if kind == "ALE" else "RHALE"]))
        o.fit(fs, binning_method=b)
    else:
        o.fit(fs, points_for_centering=7)
    w.check("fit")
    for f in feats:
        for ce in (False, True, "zero_start"):
            r = o.eval(f, xs, True, ce)
            w("result of eval", r[0])
            w("result of eval", r[1])
            out["eval", f, ce] = [np.array(r[0], dtype=float), np.array(r[1], dtype=float)]
            w.check("eval(%d, %s)" % (f, ce))
            if is_pdp(kind):
                y = w("result of eval", o.eval(f, xs, centering=ce, return_all=True))
                out["all", f, ce] = np.array(y, dtype=float)
                w.check("eval(%d, %s, return_all)" % (f, ce))
    if plots:
        sx, sy = w("scale_x", {"mean": 2.0, "std": 3.0}), w("scale_y", {"mean": -1.0, "std": 0.5})
        yl = w("y_limits", [-2.0, 5.0])
        for f in feats[:1]:
            for het in (False, "ice" if is_pdp(kind) else "shap_values" if kind == "SHAP" else True):
                out["plot", f, str(het)] = drawn(lambda: o.plot(f, heterogeneity=het, centering=True, scale_x=sx, scale_y=sy, show_avg_output=True, y_limits=yl))
                w.check("plot(%d, %s)" % (f, het))
        out["eval after plot"] = np.array(o.eval(feats[0], xs, True, True)[1], dtype=float)
        w.check("eval")
    return out


def compare(kind, got, want, tol, what):
    d = difference(got, want, tol)
    expect(d is None, "%s: %s", what, d)


def storage(c):
    """every storage of data, effects, axis limits, positions and model outputs; one varied at a time and all pairs of data with another"""
    kind = c.pick("method", GLOBAL)
    which = c.pick("values", ["plain", "signed", "large", "binary"])
    X0 = integers(9, which)
    D = 3
    typ = c.pick("model output", ["float", "int", "float32", "read-only", "strided"], dev=True)
    base = floored(integral(D)) if typ == "int" else integral(D)
    m = base if typ == "float" else Typed(base, typ)
    L0 = np.stack([X0.min(axis=0) - 1.0, X0.max(axis=0) + 1.0])
    cut = c.pick("axis limits", ["data", "wider", "cut"], dev=True)
    if cut == "cut":
        L0 = np.stack([X0.min(axis=0), X0.max(axis=0) - (1.0 if which != "binary" else 0.0)])
    xs0 = np.array([X0[:, 0].min(), X0[:, 0].max() - 1, X0[:, 0].max(), X0[:, 0].min() + 1])
    xs0 = np.clip(xs0, X0[:, 0].min(), X0[:, 0].max())
    sd = c.pick("data", stores(X0, skip=("big-endian",) if kind == "SHAP" else ()), dev=True)       # numba has no big-endian arrays
    E0 = np.round(base.jac(X0)) if kind == "RHALE-eff" else None
    se = c.pick("effects", stores(E0), dev=True) if E0 is not None else None
    sl = None if cut == "data" else c.pick("limits", stores(L0), dev=True)
    sx = c.pick("positions", stores(xs0), dev=True)
    single = any(s == "float32" for s in (sd, sx, sl, typ))
    if single and kind.endswith("num"):
        raise Skip()        # numerical derivatives in single precision are outside the domain
    if c.tier == "quick" and (which != "plain" or kind == "SHAP") and [sd != "float64", se not in (None, "float64"), sl not in (None, "float64"), sx != "float64", typ != "float", cut != "data"].count(True) > 1:
        raise Skip()
    plots = c.tier == "thorough" or c.pick("plots", [True, False] if which == "plain" else [False])
    want = observe(Op("", lambda _: session(kind, X0.copy(), base, None if E0 is None else E0.copy(), None if sl is None else L0.copy(), xs0.copy(), Watch(), plots=plots)), None)
    if want[0] == "raises":
        raise Skip()
    got = ("ok", session(kind, STORE[sd](X0), m, None if se is None else STORE[se](E0), None if sl is None else STORE[sl](L0), STORE[sx](xs0), W(c), plots=plots))
    c.op(2)
    compare(kind, got, want, 2e-4 if single else 1e-7, "storage")
    c.state(got)


class W(Watch):
    def __init__(self, c):
        super().__init__()
        self.c = c

    def check(self, after):
        try:
            Watch.check(self, after)
        except AssertionError as e:
            raise Modified(str(e))


class Modified(BaseException):
    """must not be swallowed by observe"""


def guarded(f):
    """turns Modified into an ordinary violation"""
    def g(c):
        try:
            f(c)
        except Modified as e:
            expect(False, "%s", e)
    g.__name__ = f.__name__
    return g


def awkward(c):
    """models that answer with views of their argument or with arrays of their own"""
    kind = c.pick("method", GLOBAL)
    X0 = integers(9) / 4.0
    which = c.pick("model", ["view", "own arrays"])
    m = view_model(3) if which == "view" else own_array(3)
    plainm = gen.Model("plain", lambda X: np.array(X[:, 0]), lambda X: np.eye(3)[np.zeros(len(X), dtype=int)]) if which == "view" else gen.lin(3)
    vec = c.pick("vectorized", [True, False] if is_pdp(kind) else [True])
    xs = np.array([0.0, 0.5, 1.5, 1.0])

    def run(m, w):
        w("data", X0)
        o = make(kind, X0, m, effects=(w("effects", m.jac(X0)) if kind == "RHALE-eff" else None))
        if is_pdp(kind):
            o.fit("all", use_vectorized=vec)
        elif is_ale(kind):
            o.fit("all", binning_method=binning(EDGES["ALE" if kind == "ALE" else "RHALE"]))
        out = []
        for f in range(2):
            for ce in (False, True):
                out.append([np.array(a, dtype=float) for a in o.eval(f, xs, True, ce)])
        out.append(drawn(lambda: o.plot(0, heterogeneity=True, show_avg_output=True)))
        w.check("eval and plot")
        return out
    got = run(m, W(c))
    for n, J in getattr(m, "kept", {}).items():
        same(J, np.tile(np.array(gen.A[:3]), (n, 1)), "an array owned by the model was modified")
    compare(kind, got, run(plainm, Watch()), 1e-7, "model with awkward return values")
    c.op(2)
    c.state(got)


def results_belong_to_caller(c):
    """writing into what was returned changes no later answer"""
    kind = c.pick("method", GLOBAL)
    X = integers(9) / 4.0
    m = gen.poly(3)
    o = make(kind, X, m)
    ref = make(kind, X, m)
    xs = np.array([0.0, 0.5, 1.5, 1.0])
    first = c.pick("first call", [Opt(str(k), k) for k in calls(kind)])
    second = c.pick("second call", [Opt(str(k), k) for k in calls(kind)])
    r = ask(o, first, xs)
    for a in (r if isinstance(r, tuple) else (r,)):
        if isinstance(a, np.ndarray) and a.flags.writeable:
            a[...] = 1234.5
    got, want = ask(o, second, xs), ask(ref, second, xs)
    compare(kind, got, want, 1e-9, "after writing into an earlier result")
    c.op(2)
    c.state(got)


def calls(kind):
    return [(f, het, ce, al) for f in (0, 1) for het in (True, False) for ce in (False, True, "zero_start") for al in ((False, True) if is_pdp(kind) and not het else (False,))]


def ask(o, call, xs):
    f, het, ce, al = call
    return o.eval(f, xs, het, ce, **({"return_all": True} if al else {}))


# ---------------------------------------------------------------- regional
def regional(c):
    kind = c.pick("method", REGIONAL if c.tier == "thorough" else [k for k in REGIONAL if k != "RHALE-jac"])
    which = c.pick("values", ["plain", "signed"] + (["large"] if c.tier == "thorough" else []))
    X0 = integers(24, which)
    m = integral(3)
    quick = c.tier == "quick"
    sd = c.pick("data", stores(X0, skip=("big-endian",)), dev=True)
    E0 = np.round(m.jac(X0)) if kind == "RHALE-eff" else None
    se = c.pick("effects", stores(E0), dev=True) if E0 is not None else None
    L0 = np.stack([X0.min(axis=0), X0.max(axis=0)])
    sl = c.pick("limits", [None] + stores(L0, skip=("big-endian", "float64")), dev=True)
    typ = c.pick("model output", ["float", "int", "read-only"], dev=True)
    if kind == "SHAP" and quick and (which != "plain" or typ != "float" or sl is not None or sd not in ("float64", "int64", "read-only")):
        raise Skip()
    if typ == "int":
        m = floored(m)
    single = "float32" in (sd, sl, se)
    if single and kind.endswith("num"):
        raise Skip()
    got = regional_session(kind, STORE[sd](X0), m if typ == "float" else Typed(m, typ), None if se is None else STORE[se](E0), None if sl is None else STORE[sl](L0), W(c))
    want = regional_session(kind, X0.copy(), m, None if E0 is None else E0.copy(), None if sl is None else L0.copy(), Watch())
    c.op(2)
    compare(kind, got, want, 2e-4 if single else 1e-7, "storage")
    c.state(got)


def regional_session(kind, X, m, E, L, w):
    m = During(m, data=X, effects=E, limits=L)
    kw = dict(nof_instances="all", feature_names=w("feature_names", ["a", "b", "c"]), feature_types=w("feature_types", ["cont", "cat", "cont"]))
    if L is not None:
        kw["axis_limits"] = w("axis_limits", L)
    w("data", X)
    if E is not None:
        w("effects", E)
    o = make_regional(kind, X, m, effects=E, **kw)
    w.check("constructor")
    args = dict(heter_pcg_drop_thres=0.0, heter_small_enough=0.0, max_depth=2, nof_candidate_splits_for_numerical=3, min_points_per_subregion=5, candidate_conditioning_features=w("candidate_conditioning_features", [1, 2]))
    if is_ale(kind):
        args["binning_method"] = w("binning", binning(("fixed", dict(nof_bins=4, min_points_per_bin=0, cat_limit=0)) if kind == "ALE" else EDGES["RHALE"]))
    fs = w("features", [0])
    o.fit(fs, **args)
    w.check("fit")
    out = {}
    scale = w("scale_x_list", [{"mean": 1.0, "std": 2.0}, {"mean": -1.0, "std": 0.5}, {"mean": 0.0, "std": 10.0}])
    sy = w("scale_y", {"mean": 1.0, "std": 2.0})
    nodes = o.tree_full["feature_0"].nodes
    out["tree"] = [(n.name, int(n.data["nof_instances"]), float(n.data["heterogeneity"])) for n in nodes]
    xs = w("positions", np.array([X[:, 0].min(), X[:, 0].max()], dtype=float))
    for k in range(min(3, len(o.tree_pruned["feature_0"].nodes))):
        D, e, name = o.get_node_info(0, k, scale)
        out["node", k] = [np.array(D, dtype=float), None if e is None else np.array(e, dtype=float), name]
        for ce in (False, True):
            r = o.eval(0, k, xs, True, ce)
            out["eval", k, ce] = [np.array(w("result", r[0]), dtype=float), np.array(w("result", r[1]), dtype=float)]
        w.check("eval of node %d" % k)
        out["plot", k] = drawn(lambda: o.plot(0, k, heterogeneity="ice" if is_pdp(kind) else True, centering=True, scale_x_list=scale, scale_y=sy))
        w.check("plot of node %d" % k)
    out["show"] = [printed(lambda: o.show_partitioning(fs, imp, sc)) for imp in (True, False) for sc in (None, scale)]
    w.check("show_partitioning")
    out["describe"] = [printed(lambda: o.describe_subregions(fs, imp, sc)) for imp in (True, False) for sc in (None, scale)]
    w.check("describe_subregions")
    return out


# ---------------------------------------------------------------- the rest of the public functions
def functions(c):
    what = c.pick("function", ["find_limits", "H-index", "REPID", "transformer"])
    which = c.pick("values", ["plain", "signed", "large", "binary"])
    X0 = integers(9, which)
    w = W(c)
    sd = c.pick("data", stores(X0, skip=("bool",) if what == "find_limits" else ()))
    X = w("data", STORE[sd](X0))
    single = sd == "float32"
    m = integral(3)
    inner = m._f
    m._f = lambda Z: inner(np.asarray(Z, dtype=float))       # a model that does not compute in eight bits
    if what == "find_limits":
        E0 = np.round(m.jac(X0))
        L0 = np.stack([X0.min(axis=0), X0.max(axis=0)])
        if c.tier == "quick" and which not in ("plain", "binary"):
            raise Skip()
        spec = c.pick("binning", ["fixed", "greedy", "dp", ("fixed", dict(nof_bins=4, min_points_per_bin=0, cat_limit=0)), EDGES["RHALE"], ("dp", dict(max_nof_bins=4, min_points_per_bin=2, discount=0.25, cat_limit=0)), ("fixed", dict(nof_bins=2, min_points_per_bin=3, cat_limit=15))])
        E = w("effects", STORE[c.pick("effects", stores(E0))](E0))
        L = w("limits", STORE[c.pick("limits", stores(L0))](L0))
        b = w("binning", binning(spec))
        for f in range(3):
            got = bm.find_limits(X, E, f, L, b).limits
            want = bm.find_limits(X0.copy(), E0.copy(), f, L0.copy(), binning(spec)).limits
            w.check("find_limits(%d)" % f)
            expect((got is False) == (want is False), "feature %d: %s, expected %s", f, got, want)
            if want is not False:
                same(got, want, "bins of feature %d" % f, 1e-6)
                w("bins", got)
            c.op(2)
        c.state(got)
    elif what in ("H-index", "REPID"):
        def run(X, w):
            d = During(m, data=X)
            h = inter.HIndex(X, d.f, nof_instances="all") if what == "H-index" else inter.REPID(X, d.f, d.jac, "all")
            out = [float(h.eval_one_vs_all(i)) for i in range(3)]
            w.check("one versus rest")
            if what == "H-index":
                out += [float(h.eval_pairwise(i, j)) for i in range(3) for j in range(3)]
                w.check("pairwise")
            with figure(), captured():
                h.plot()
            w.check("plot")
            return out
        same(run(X, w), run(X0.copy(), Watch()), what, 2e-4 if single else 1e-7)
        c.op(2)
        c.state(what)
    else:
        S = w("splits", {"feat_0": [dict(type="cont", feature=1, position=2.0), dict(type="cat", feature=2, position=4.0)], "feat_1": [], "feat_2": [dict(type="cont", feature=0, position=0.0)]})
        got = DataTransformer(S).transform(X)
        w.check("transform")
        same(got, DataTransformer(copy.deepcopy(S)).transform(X0.copy()), "transformed data", 1e-6)
        c.op(2)
        c.state(got)


# ---------------------------------------------------------------- what the caller does with its own objects afterwards
def scribble(v):
    """overwrites an object of the caller, in place"""
    if isinstance(v, np.ndarray):
        if v.dtype == bool:
            v[...] = ~v
        else:
            v[...] = v[::-1] * 3 + 1
    elif isinstance(v, dict):
        for k in list(v):
            if isinstance(v[k], (dict, list)):
                scribble(v[k])
            else:
                v[k] = 0.25
    elif isinstance(v, list):
        for k, x in enumerate(v):
            if isinstance(x, (dict, list)):
                scribble(x)
            else:
                v[k] = {"cont": "cat", "cat": "cont"}.get(x, "scribbled") if isinstance(x, str) else 0
        if v and not isinstance(v[0], dict):
            v.append(v[0])
    elif hasattr(v, "__dict__"):
        for k, x in vars(v).items():
            if isinstance(x, bool) or x is None or isinstance(x, str):
                continue
            if isinstance(x, (int, float)):
                setattr(v, k, 1 if k != "cat_limit" else 50)


def afterwards(c):
    """the caller changes its own objects after passing them: no later answer changes"""
    kind = c.pick("object", ["global " + k for k in GLOBAL] + ["regional " + k for k in REGIONAL if k not in ("RHALE-num",)] + ["HIndex", "REPID", "DataTransformer"])
    after = c.pick("after", ["constructor", "fit", "first answers"])
    what = c.pick("changed", ["data", "effects", "axis_limits", "feature_names", "feature_types", "binning", "conditioning", "features", "results", "everything"])
    X0 = integers(24, "plain") / 2.0
    m = integral(3)
    xs = np.array([0.25, 1.0, 2.0])
    regional_kind = kind.startswith("regional")
    name = kind.split()[-1]
    mine = dict(data=X0.copy())
    if "RHALE-eff" in kind:
        mine["effects"] = np.round(m.jac(X0)) * 0.5
    if kind.startswith(("global", "regional")):
        mine["axis_limits"] = np.stack([X0.min(axis=0) - 0.5, X0.max(axis=0) + 0.5])
        mine["feature_names"] = ["a", "b", "c"]
        mine["features"] = [0, 1]
        if is_ale(name):
            mine["binning"] = binning(("fixed", dict(nof_bins=4, min_points_per_bin=0, cat_limit=0)) if name == "ALE" else EDGES["RHALE"])
        if regional_kind:
            mine["feature_types"] = ["cont", "cat", "cont"]
            mine["conditioning"] = [1, 2] if name == "SHAP" else [2, 1]
            mine["features"] = [0]
    elif kind == "DataTransformer":
        mine["conditioning"] = {"feat_0": [dict(type="cont", feature=1, position=2.0)], "feat_1": [dict(type="cat", feature=2, position=4.0)], "feat_2": []}
    if what not in mine and what not in ("everything", "results"):
        raise Skip()
    if kind == "DataTransformer" and (after == "fit" or what == "data"):
        raise Skip()
    if kind in ("HIndex", "REPID") and after == "fit":
        raise Skip()
    if what == "results" and after == "constructor" or after == "constructor" and what in ("binning", "features") or what == "conditioning" and after == "constructor" and kind != "DataTransformer":
        raise Skip()
    if name == "SHAP" and regional_kind and c.tier == "quick" and what not in ("everything", "axis_limits", "results"):
        raise Skip()

    def change(mine, stage, results):
        if stage != after:
            return
        early = ("binning", "features", "conditioning")
        for k, v in mine.items():
            if what in (k, "everything") and not (stage == "constructor" and k in early and kind != "DataTransformer"):
                scribble(v)
        if what in ("results", "everything"):
            for r in results:
                for a in (r if isinstance(r, (tuple, list)) else (r,)):
                    if isinstance(a, np.ndarray) and a.flags.writeable:
                        a[...] = 1234.5

    def run(changes):
        mi = copy.deepcopy(mine)
        results = []

        def keep(r):
            results.append(r)
            return copy.deepcopy(r)

        def stage(s):
            if changes:
                change(mi, s, results)
                results.clear()
        if kind == "DataTransformer":
            o = DataTransformer(mi["conditioning"])
            stage("constructor")
            out = [keep(o.transform(X0)), list(o.new_names)]
            stage("first answers")
            return out + [keep(o.transform(X0[::-1] + 0.5)), list(o.new_names)]
        if kind in ("HIndex", "REPID"):
            o = inter.HIndex(mi["data"], m.f, nof_instances="all") if kind == "HIndex" else inter.REPID(mi["data"], m.f, m.jac, "all")
            stage("constructor")
            out = [o.eval_one_vs_all(0)]
            stage("first answers")
            out += [o.eval_one_vs_all(i) for i in range(3)]
            if kind == "HIndex":
                out += [o.eval_pairwise(1, 2)]
            return [float(v) for v in out]
        kw = {k: mi[k] for k in ("axis_limits", "feature_names", "feature_types") if k in mi}
        o = (make_regional if regional_kind else make)(name, mi["data"], m, effects=mi.get("effects"), nof_instances="all", **kw)
        stage("constructor")
        fa = dict(binning_method=mi["binning"]) if is_ale(name) else {}
        if regional_kind:
            fa.update(heter_pcg_drop_thres=0.0, heter_small_enough=0.0, max_depth=2, nof_candidate_splits_for_numerical=3, min_points_per_subregion=5, candidate_conditioning_features=mi["conditioning"])
        o.fit(mi["features"], **fa)
        stage("fit")
        out = []
        for again in (0, 1):
            for f in ([0] if regional_kind else [0, 1]):
                nodes = (0, 1, 2) if regional_kind else (None,)
                for n in nodes:
                    a = (f,) if n is None else (f, n)
                    for ce in (False, True, "zero_start"):
                        out.append(observe(Op("", lambda o: keep(o.eval(*a, xs, True, ce))), o))
                    out.append(observe(Op("", lambda o: drawn(lambda: o.plot(*a, heterogeneity="ice" if is_pdp(name) else "shap_values" if name == "SHAP" else True, centering=True))), o))
                    if n is not None:
                        out.append(observe(Op("", lambda o: keep(o.get_node_info(*a))), o))
            if regional_kind:
                out += [printed(lambda: o.show_partitioning(0)), printed(lambda: o.describe_subregions(0, False))]
            stage("first answers")
        return out
    compare(kind, run(True), run(False), 1e-6 if name.endswith("num") else 1e-9, "after the caller changed %s" % what)
    c.op(2)
    c.state(kind, after, what)


BOUNDS = ("8 methods x 4 value ranges x every storage (12 types and layouts) of data, effects, limits, positions and 5 storages of model outputs, any two of them varied together (quick: for one value range); models that return views "
          "or their own arrays; every ordered pair of evaluations with the first result overwritten; 8 regional methods; find_limits with all triples of storages; interaction scores; data transformer; every object the caller passed or got, changed in place at every stage")
ASSUMPTIONS = ["single precision inputs are only compared to 2e-4 and not with numerical derivatives", "the model itself does not write into its argument"]


def scenarios(tier):
    b = 2
    return [Scenario("storage", guarded(storage), bound=b if tier == "quick" else 3), Scenario("awkward-models", guarded(awkward)), Scenario("results-belong-to-the-caller", results_belong_to_caller),
            Scenario("regional", guarded(regional), bound=1 if tier == "quick" else 2), Scenario("functions", guarded(functions)), Scenario("changed-afterwards", afterwards)]
