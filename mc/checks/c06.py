"""C06: validity of bins, and refusals."""
import itertools

import numpy as np

import effector.binning_methods as bm
from mc import gen, ref
from mc.common import make, same, expect, binning, is_ale
from mc.engine import Scenario, Skip


def judge(c, xs, eff, lo, hi, spec):
    """Calls the public bin finder and checks everything C06 says about its answer."""
    kind, p = spec
    N = len(xs)
    X = np.stack([xs, np.arange(N) * 0.5], axis=1)
    E = np.stack([eff, np.zeros(N)], axis=1)
    lims = np.array([[lo, -1.0], [hi, N]])
    r = bm.find_limits(X.copy(), None if kind == "fixed" and c.pick("effects given to fixed", [True, False]) is False else E.copy(), 0, lims.copy(), binning(spec)).limits
    c.op()
    minp = p["min_points_per_bin"] or 0
    cat = p["cat_limit"]
    u = len(set(xs.tolist()))
    few = u <= cat
    if u <= 1 or N < minp:
        refuse = True
    elif few:
        refuse = not ref.all_bins_ok(xs, ref.cat_edges(xs), minp)
    elif kind == "fixed":
        refuse = not ref.all_bins_ok(xs, np.linspace(lo, hi, p["nof_bins"] + 1), minp)
    else:
        refuse = False
    if refuse:
        expect(r is False, "no valid binning exists, but %s was returned", r)
        c.state("refused")
        return None
    expect(isinstance(r, np.ndarray), "a valid binning exists, but %r was returned", r)
    edges = np.asarray(r, float)
    expect(edges.ndim == 1 and len(edges) >= 2, "edges %s", edges)
    expect(np.all(np.diff(edges) > 0), "edges not strictly increasing: %s", edges.tolist())
    if few:
        same(edges, ref.cat_edges(xs), "edges of a few-valued feature", 1e-12)
    else:
        expect(edges[0] == lo and edges[-1] == hi, "edges %s do not span the axis limits [%r, %r]", edges.tolist(), lo, hi)
        if kind == "fixed":
            same(edges, np.linspace(lo, hi, p["nof_bins"] + 1), "equal-width edges", 1e-12)
    b = ref.bin_of(xs, edges)
    expect(np.all(b >= 0), "instances outside the bins: %s in %s", xs[b < 0].tolist(), edges.tolist())
    n = np.bincount(b, minlength=len(edges) - 1)
    expect(np.all(n >= minp), "bins %s hold %s instances, at least %d were requested", edges.tolist(), n.tolist(), minp)
    c.state(edges, n)
    return edges


def exhaustive(c):
    n = c.pick("instances", [4, 3, 5, 6] if c.tier == "thorough" else [4, 3, 5])
    col = c.pick("column", [np.array(t) for t in itertools.combinations_with_replacement([0.0, 1.0, 1.5, 2.0, 4.0], n)])
    kind = c.pick("method", ["fixed", "greedy", "dp"])
    K = c.pick("bins", [2, 1, 3, 4, 8] if kind != "dp" else [2, 1, 3, 4])
    minp = c.pick("min_points", [1, 0, 2, 3, 4])
    cat = c.pick("cat_limit", [0, 2, 4])
    wide = c.pick("limits", ["data", "wide", "left-tight"])
    lo, hi = float(col.min()), float(col.max())
    if wide == "wide":
        lo, hi = lo - 2.0, hi + 1.0
    elif wide == "left-tight":
        hi = hi + 4.0
    if not lo < hi:
        lo, hi = lo - 1, hi + 1
    eff = np.array([1.0, -2.0, 0.5, 3.0, 3.0, -1.0])[:n]
    name = {"fixed": "nof_bins", "greedy": "init_nof_bins", "dp": "max_nof_bins"}[kind]
    p = {name: K, "min_points_per_bin": minp, "cat_limit": cat}
    if kind != "fixed":
        p["discount"] = c.pick("discount", [0.3, 0.0])
    judge(c, col, eff, lo, hi, (kind, p))


def defaults(c):
    """named methods and default option objects on larger columns, at very different scales/offsets"""
    i = np.arange(60)
    shapes = {"spread": (i * 23 % 60) / 4.0, "cluster+outlier": np.r_[np.zeros(59) + (i[:59] % 30) / 64.0, 30.0],
              "two groups": np.where(i % 2 == 0, i % 16, 100.0 + i % 16) * 1.0, "integers": (i * 7 % 20) * 1.0,
              "few values": (i % 4) * 1.0, "constant": np.ones(60)}
    s = c.pick("shape", sorted(shapes))
    scale, off = c.pick("units", [(1.0, 0.0), (2.0 ** -30, 0.0), (2.0 ** 35, 0.0), (1.0, 2.0 ** 24), (0.1, 0.3), (1.0 / 3, -7.7)])
    xs = shapes[s] * scale + off
    kind = c.pick("method", ["fixed", "greedy", "dp"])
    minp = c.pick("min_points", [0, 10, 1, 25, 31, 60, 61])
    cat = c.pick("cat_limit", [15, 4, 3])
    eff = np.where(i % 3 == 0, 1.0, -0.5) * ((i * 7 % 11) - 3.0)
    K = c.pick("bins", [20, 7])
    name = {"fixed": "nof_bins", "greedy": "init_nof_bins", "dp": "max_nof_bins"}[kind]
    p = {name: K, "min_points_per_bin": minp, "cat_limit": cat}
    if kind != "fixed":
        p["discount"] = 0.3
    lo, hi = float(xs.min()), float(xs.max())
    if lo == hi:
        hi = lo + 1.0
    judge(c, xs, eff, lo, hi, (kind, p))


def large(c):
    """more instances and bins than any internal block would hold"""
    n = c.pick("instances", [1009, 4099] + ([20011] if c.tier == "thorough" else []))
    i = np.arange(n)
    xs = c.pick("column", [gen.Data("spread", (i * 7 % n) / 64.0), gen.Data("dense left", ((i * 7 % n) / n) ** 3 * 8), gen.Data("lattice", (i % 29) * 1.0), gen.Data("sorted", i * 0.1)]).X
    kind = c.pick("method", ["fixed", "greedy", "dp"])
    xs = np.asarray(xs, float)
    K = c.pick("bins", [20, 7, 333] if kind != "dp" else [20, 5])
    minp = c.pick("min_points", [10, 1, 0, 61])
    eff = np.where(i % 3 == 0, 1.0, -0.5) * ((i * 7 % 11) - 3.0)
    p = {{"fixed": "nof_bins", "greedy": "init_nof_bins", "dp": "max_nof_bins"}[kind]: K, "min_points_per_bin": minp, "cat_limit": c.pick("cat_limit", [15, 40])}
    if kind != "fixed":
        p["discount"] = 0.3
    judge(c, xs, eff, float(xs.min()), float(xs.max()), (kind, p))


def through_fit(c):
    """refusals reach the user as errors, accepted binnings are the ones found"""
    kind = c.pick("effect", ["ALE", "RHALE-jac", "RHALE-eff"])
    col = c.pick("column", [np.array(t) for t in itertools.combinations_with_replacement([0.0, 1.0, 2.0, 4.0], 4)])
    meth = "fixed" if kind == "ALE" else c.pick("method", ["fixed", "greedy", "dp"])
    K = c.pick("bins", [2, 4])
    minp = c.pick("min_points", [1, 2, 3, 5])
    cat = c.pick("cat_limit", [0, 3])
    X = gen.with_column(col, 2, 0)
    lo, hi = float(col.min()), float(col.max())
    kw = {}
    if lo == hi:
        kw["axis_limits"] = np.array([[lo - 1, -5.0], [hi + 1, 5.0]])
    name = {"fixed": "nof_bins", "greedy": "init_nof_bins", "dp": "max_nof_bins"}[meth]
    spec = (meth, {name: K, "min_points_per_bin": minp, "cat_limit": cat})
    u = len(set(col.tolist()))
    if u <= 1 or len(col) < minp:
        refuse = True
    elif u <= cat:
        refuse = not ref.all_bins_ok(col, ref.cat_edges(col), minp)
    else:
        refuse = meth == "fixed" and not ref.all_bins_ok(col, np.linspace(lo, hi, K + 1), minp)
    m = gen.poly(2)
    obj = make(kind, X, m, **kw)
    try:
        obj.fit(0, binning_method=binning(spec))
        err = None
    except AssertionError as e:
        err = e
    except ValueError as e:
        # every bin holds one instance: no variance can be estimated (outside the domain, see DESIGN.md)
        raise Skip()
    c.op()
    expect((err is not None) == refuse, "fit %s, but binning is %s", "raised %r" % (err,) if err else "succeeded",
           "impossible" if refuse else "possible")
    c.state(refuse)


def none_min(c):
    """min_points may be None in the documented signatures of the fixed and greedy finders"""
    import effector.bin_splitting as be
    col = c.pick("column", [np.array(t) for t in itertools.combinations_with_replacement([0.0, 1.0, 2.0, 4.0], 4)])
    cls = c.pick("finder", [be.Fixed, be.Greedy])
    cat = c.pick("cat_limit", [0, 3])
    lo, hi = col.min() - 0.0, col.max() + (1.0 if col.min() == col.max() else 0.0)
    X = np.stack([col, col], axis=1)
    L = np.array([[lo, lo], [hi, hi]])
    eff = np.array([[1.0, 0], [2, 0], [2, 0], [-1, 0]])
    out = []
    for mp in (None, 0):
        o = cls(X.copy(), eff.copy(), feature=0, axis_limits=L.copy())
        out.append(o.find(4, min_points=mp, cat_limit=cat))
    c.op(2)
    if out[1] is False:
        expect(out[0] is False, "None differs from 0: %r / False", out[0])
    else:
        same(out[0], out[1], "min_points=None against 0")
    c.state(out[0])


BOUNDS = ("all multisets of 3..5 (thorough 6) values over {0,1,1.5,2,4} x 3 methods x bins {1,2,3,4,8} x min points 0..4 x categorical limit {0,2,4} "
          "x 3 axis limits x discounts; 60-instance columns in 6 shapes x 6 units x 7 minima x 3 categorical limits x 2 resolutions; 1009/4099 (20011) instances with up to 333 bins")
ASSUMPTIONS = ["axis limits contain all instances handed to the bin finder (fit guarantees it)"]


def scenarios(tier):
    return [Scenario("bins-exhaustive-columns", exhaustive), Scenario("bins-units-and-defaults", defaults),
            Scenario("bins-through-fit", through_fit), Scenario("no-minimum", none_min), Scenario("many-instances-and-bins", large)]
