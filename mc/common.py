"""Building the real objects under test, uniformly."""
import contextlib
import io

import numpy as np

from mc.boot import effector, plt
from mc.engine import Violation
from mc import ref
import effector.binning_methods as bm

CENTERINGS = [False, True, "zero_integral", "zero_start"]

GLOBAL = ["PDP", "dPDP-jac", "dPDP-num", "ALE", "RHALE-eff", "RHALE-jac", "RHALE-num", "SHAP"]


def make(kind, X, m, effects=None, **kw):
    if kind == "PDP":
        return effector.PDP(X, m.f, **kw)
    if kind == "dPDP-jac":
        return effector.DerPDP(X, m.f, m.jac, **kw)
    if kind == "dPDP-num":
        return effector.DerPDP(X, m.f, None, **kw)
    if kind == "ALE":
        return effector.ALE(X, m.f, **kw)
    if kind == "RHALE-eff":
        return effector.RHALE(X, m.f, None, data_effect=m.jac(X) if effects is None else effects, **kw)
    if kind == "RHALE-jac":
        return effector.RHALE(X, m.f, m.jac, **kw)
    if kind == "RHALE-num":
        return effector.RHALE(X, m.f, None, **kw)
    if kind == "SHAP":
        return effector.ShapDP(X, m.f, **kw)
    raise KeyError(kind)


def is_ale(kind):
    return kind.startswith("ALE") or kind.startswith("RHALE")


def is_pdp(kind):
    return "PDP" in kind


REGIONAL = ["PDP", "dPDP-jac", "dPDP-num", "ALE", "RHALE-eff", "RHALE-jac", "RHALE-num", "SHAP"]


def make_regional(kind, X, m, effects=None, **kw):
    if kind == "PDP":
        return effector.RegionalPDP(X, m.f, **kw)
    if kind == "dPDP-jac":
        return effector.RegionalDerPDP(X, m.f, m.jac, **kw)
    if kind == "dPDP-num":
        return effector.RegionalDerPDP(X, m.f, None, **kw)
    if kind == "ALE":
        return effector.RegionalALE(X, m.f, **kw)
    if kind == "RHALE-eff":
        return effector.RegionalRHALE(X, m.f, None, instance_effects=m.jac(X) if effects is None else effects, **kw)
    if kind == "RHALE-jac":
        return effector.RegionalRHALE(X, m.f, m.jac, **kw)
    if kind == "RHALE-num":
        return effector.RegionalRHALE(X, m.f, None, **kw)
    if kind == "SHAP":
        return effector.RegionalShapDP(X, m.f, **kw)
    raise KeyError(kind)


def expect(cond, msg, *args, key=None):
    if not cond:
        raise Violation(msg % args if args else msg, key=key)


def same(got, want, what, tol=1e-7, key=None):
    got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    if got.shape != want.shape:
        raise Violation("%s: shape %r, expected %r" % (what, got.shape, want.shape), key=key)
    if not ref.close(got, want, tol):
        raise Violation("%s: got %s, expected %s" % (what, np.array2string(got, threshold=40, precision=10),
                                                     np.array2string(want, threshold=40, precision=10)), key=key)


@contextlib.contextmanager
def captured():
    """stdout produced inside the block"""
    b = io.StringIO()
    with contextlib.redirect_stdout(b):
        yield b


@contextlib.contextmanager
def figure():
    """Collects the figures a plot call opens; closes everything afterwards."""
    plt.close("all")
    try:
        yield Fig()
    finally:
        plt.close("all")


class Fig:
    @property
    def axes(self):
        return plt.gcf().axes

    def snapshot(self):
        """Everything drawn, as plain numbers and strings (used to compare plots with each other)."""
        out = []
        for ax in self.axes:
            d = {"title": ax.get_title(), "xlabel": ax.get_xlabel(), "ylabel": ax.get_ylabel(),
                 "lines": [(np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float), l.get_linestyle()) for l in ax.lines],
                 "polys": [p.vertices.copy() for c in ax.collections for p in c.get_paths()],
                 "bars": [(r.get_x(), r.get_width(), r.get_height()) for c in ax.containers for r in getattr(c, "patches", [])]}
            out.append(d)
        return out


def same_snapshot(a, b, what, tol=1e-6):
    expect(len(a) == len(b), "%s: %d axes drawn, expected %d", what, len(a), len(b))
    for p, q in zip(a, b):
        for k in ("title", "xlabel", "ylabel"):
            expect(p[k] == q[k], "%s: %s is %r, expected %r", what, k, p[k], q[k])
        expect(len(p["lines"]) == len(q["lines"]), "%s: %d lines, expected %d", what, len(p["lines"]), len(q["lines"]))
        for (x1, y1, s1), (x2, y2, s2) in zip(p["lines"], q["lines"]):
            same(x1, x2, what + ": line x", tol)
            same(y1, y2, what + ": line y", tol)
        expect(len(p["polys"]) == len(q["polys"]), "%s: number of filled bands/bars differ", what)
        for v, w in zip(p["polys"], q["polys"]):
            same(v, w, what + ": band", tol)
        same(np.array(p["bars"]), np.array(q["bars"]), what + ": bars", tol)


def has_two_in_a_bin(xs, edges):
    b = ref.bin_of(xs, edges)
    return len(b) > 0 and np.max(np.bincount(b[b >= 0], minlength=1)) >= 2


def binning(spec):
    """('fixed'|'greedy'|'dp', params) or a string -> object to pass to the library"""
    if isinstance(spec, str):
        return spec
    kind, kw = spec
    return {"fixed": bm.Fixed, "greedy": bm.Greedy, "dp": bm.DynamicProgramming}[kind](**kw)
