"""Evaluating at any sequence of positions is evaluating at each of them alone: shared by C01-C04."""
import itertools

import numpy as np

from mc import gen
from mc.common import make, same, expect, is_ale, is_pdp, binning
from mc.engine import Scenario


def scenario(kinds):
    def positions(c):
        kind = c.pick("method", kinds)
        D = c.pick("features", [2, 3, 1] if kind != "SHAP" else [2])
        f = c.pick("feature", list(range(D)))
        N = c.pick("instances", [3, 5] if kind != "SHAP" else [6])
        vec = c.pick("vectorized", [True, False] if is_pdp(kind) else [None])
        ce = c.pick("centering", [False, "zero_start"] if c.tier == "quick" else [False, True, "zero_start"])
        T = c.pick("positions", [2, 3, 1, 4, 5] if c.tier == "thorough" else [2, 3, 1] + ([5] if f == 0 else []))
        col = np.array([0.0, 2.0, 0.5, 1.0, 1.5, 0.25])[:N]
        X = gen.with_column(col, D, f)
        m = gen.poly(D)
        values = [0.5, 2.0, 1.25, 0.0] + ([-1.0, 3.0] if c.tier == "thorough" and T < 4 else [])
        o = make(kind, X, m, nof_instances="all")
        if is_ale(kind):
            o.fit(f, binning_method=binning(("fixed", dict(nof_bins=2, min_points_per_bin=0, cat_limit=0))), centering=ce)
        kw = {} if vec is None else dict(use_vectorized=vec)
        one = {v: [np.asarray(a, float)[0] for a in o.eval(f, np.array([v]), True, ce, **kw)] + ([o.eval(f, np.array([v]), centering=ce, return_all=True, **kw)[0]] if is_pdp(kind) else []) for v in values}
        seqs = itertools.product(values, repeat=T) if T < 5 else itertools.permutations(values + [1.0], 5)
        if T == 5:
            one[1.0] = [np.asarray(a, float)[0] for a in o.eval(f, np.array([1.0]), True, ce, **kw)] + ([o.eval(f, np.array([1.0]), centering=ce, return_all=True, **kw)[0]] if is_pdp(kind) else [])
        tol = 1e-9 if not kind.endswith("num") else 1e-7
        for seq in seqs:
            xs = np.array(seq)
            y, h = o.eval(f, xs, True, ce, **kw)
            same(y, [one[v][0] for v in seq], "curve at %s, position by position" % (seq,), tol)
            same(h, [one[v][1] for v in seq], "heterogeneity at %s, position by position" % (seq,), tol)
            same(o.eval(f, xs, centering=ce, **kw), y, "curve alone at %s" % (seq,), tol)
            if is_pdp(kind):
                same(o.eval(f, xs, centering=ce, return_all=True, **kw), np.array([one[v][2] for v in seq]), "individual curves at %s, position by position" % (seq,), tol)
            c.op(2)
        c.state(kind, y)
    return Scenario("every-sequence-of-positions", positions)
