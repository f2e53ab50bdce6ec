"""Reference model: the mathematical definitions effector documents, written as directly as possible
and without importing anything from effector."""
import itertools
import math

import numpy as np
from scipy.interpolate import UnivariateSpline

BIG = 1e30


# ------------------------------------------------------------------ comparison helpers
def scale(*arrs):
    m = 1.0
    for a in arrs:
        a = np.asarray(a, dtype=float)
        if a.size:
            f = a[np.isfinite(a)]
            if f.size:
                m = max(m, float(np.max(np.abs(f))))
    return m


def close(a, b, tol=1e-7):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    nan = np.isnan(a) & np.isnan(b)
    inf = np.isinf(a) & np.isinf(b) & (np.sign(a) == np.sign(b))
    with np.errstate(all="ignore"):
        ok = np.abs(a - b) <= tol * scale(a, b)
    return bool(np.all(ok | nan | inf))


# ------------------------------------------------------------------ PDP / ICE
def ice(f, X, feat, xs):
    """(T, N): instance i with its feat-th entry replaced by xs[t]."""
    out = np.empty((len(xs), X.shape[0]))
    for t, x in enumerate(xs):
        for i in range(X.shape[0]):
            row = np.array(X[i], dtype=float)
            row[feat] = x
            out[t, i] = np.asarray(f(row[None, :]), dtype=float)[0]
    return out


def dice(jac, X, feat, xs):
    out = np.empty((len(xs), X.shape[0]))
    for t, x in enumerate(xs):
        for i in range(X.shape[0]):
            row = np.array(X[i], dtype=float)
            row[feat] = x
            out[t, i] = np.asarray(jac(row[None, :]), dtype=float)[0, feat]
    return out


def center_ice(curve, lo, hi, mode, k=100):
    """curve: xs -> (T,N). Returns the (N,) constants to subtract."""
    if mode in (True, "zero_integral"):
        return curve(np.linspace(lo, hi, k)).mean(axis=0)
    if mode == "zero_start":
        return curve(np.array([lo]))[0]
    return 0.0


def inside(X, lims, feat):
    return np.array([lims[0, feat] <= x <= lims[1, feat] for x in X[:, feat]], dtype=bool)


def limits_of(X):
    return np.stack([X.min(axis=0), X.max(axis=0)]).astype(float)


# ------------------------------------------------------------------ bins
def bin_of(xs, edges):
    """Half-open bins; the last one also contains its right edge."""
    K = len(edges) - 1
    out = []
    for x in xs:
        b = None
        for k in range(K):
            if edges[k] <= x < edges[k + 1]:
                b = k
        if b is None and x == edges[K]:
            b = K - 1
        if b is None:
            # tolerate the last edge being an ulp short
            if x > edges[K] and x - edges[K] <= 1e-7 * max(1.0, abs(x)):
                b = K - 1
            elif x < edges[0] and edges[0] - x <= 1e-7 * max(1.0, abs(x)):
                b = 0
        out.append(-1 if b is None else b)
    return np.array(out)


def count_in(xs, a, b, last):
    return sum(1 for x in xs if a <= x < b or (last and x == b))


def cat_edges(xs):
    u = sorted(set(float(x) for x in xs))
    d = [u[i + 1] - u[i] for i in range(len(u) - 1)]
    return np.array([u[0] - d[0] / 2] + [u[i] + d[i] / 2 for i in range(len(d))] + [u[-1] + d[-1] / 2])


def all_bins_ok(xs, edges, minp):
    K = len(edges) - 1
    return all(count_in(xs, edges[k], edges[k + 1], k == K - 1) >= minp for k in range(K))


def fixed_edges(xs, lo, hi, K, minp, cat_limit):
    """None if the method must refuse."""
    minp = minp or 0
    u = len(set(float(x) for x in xs))
    if u <= 1 or len(xs) < minp:
        return None
    e = cat_edges(xs) if u <= cat_limit else np.linspace(lo, hi, K + 1)
    return e if all_bins_ok(xs, e, minp) else None


def bin_cost(xs, de, a, b, last, discount):
    sel = [d for x, d in zip(xs, de) if a <= x < b or (last and x == b)]
    n = len(sel)
    if n == 0:
        return n, math.inf
    m = sum(sel) / n
    var = sum((d - m) ** 2 for d in sel) / n
    return n, var * (b - a) * (1 - discount * n / len(xs))


def dp_optimum(xs, de, lo, hi, K, minp, discount):
    """min over all 2^(K-1) coarsenings of the K-grid with every bin >= max(minp,1) points."""
    grid = np.linspace(lo, hi, K + 1)
    need = max(minp or 0, 1)
    best, arg = math.inf, None
    if K > 12:          # all partitions, sharing their beginnings
        part = {0: (0.0, [0])}
        for b in range(1, K + 1):
            for a in range(b):
                if a not in part:
                    continue
                n, c = bin_cost(xs, de, grid[a], grid[b], b == K, discount)
                if n >= need and (b not in part or part[a][0] + c < part[b][0]):
                    part[b] = (part[a][0] + c, part[a][1] + [b])
        return part.get(K, (math.inf, None))
    for mask in range(1 << (K - 1)):
        idx = [0] + [k for k in range(1, K) if mask >> (k - 1) & 1] + [K]
        tot = 0.0
        for a, b in zip(idx[:-1], idx[1:]):
            n, c = bin_cost(xs, de, grid[a], grid[b], b == K, discount)
            if n < need:
                tot = math.inf
                break
            tot += c
        if tot < best:
            best, arg = tot, idx
    return best, arg


def greedy_outcomes(xs, de, lo, hi, K, minp, discount, tie=1e-9, only=None):
    """All edge-index sequences the documented merging rule admits (several only when two costs tie
    up to rounding). `only`: leave out what cannot end up as this sequence (many ties would be many sequences)."""
    grid = np.linspace(lo, hi, K + 1)
    minp = minp or 0
    sc = max([abs(d) for d in de] + [1e-300]) ** 2 * (hi - lo)
    results = set()

    memo = {}

    def cost(a, b):
        if (a, b) not in memo:
            memo[a, b] = bin_cost(xs, de, grid[a], grid[b], b == K, discount)
        return memo[a, b]

    def hopeless(i, merged):
        """an edge other than the last is not wanted, or a wanted one was passed over (the last but one may still be dropped)"""
        w = only[:only.index(merged[-1])] if merged[-1] in only else [e for e in only if e < merged[-1]]
        return merged[:-1] != w or any(merged[-1] < e < min(i + 1, K) for e in only)

    def rec(i, merged):
        while i < K:
            if only is not None and i < K - 1 and hopeless(i, merged):
                return
            left = merged[-1]
            if i == K - 1:
                options = [True]
            else:
                n1, c1 = cost(left, i + 1)
                n2, c2 = cost(left, i + 2)
                if n1 >= minp and n2 >= minp:
                    if n1 == 0:
                        options = [True]      # an empty candidate bin is closed as it is
                    else:
                        z1, z2 = c1 <= tie * sc * 1e-6, c2 <= tie * sc * 1e-6
                        if z1 and z2:
                            options = [False] if (c1 == 0 and c2 == 0) else [False, True]
                        elif z1:
                            options = [True]
                        elif abs(c1 - c2) <= tie * sc:
                            options = [False, True]
                        else:
                            options = [not (c2 <= c1)]
                else:
                    options = [False]
            for o in options[1:]:
                rec(i + 1, merged + ([i + 1] if o else []))
            if options[0]:
                merged = merged + [i + 1]
            i += 1
        m = list(merged)
        if len(m) > 2 and cost(m[-2], m[-1])[0] < minp:
            m = m[:-2] + m[-1:]
        results.add(tuple(m))

    rec(0, [0])
    return results, grid


# ------------------------------------------------------------------ ALE / RHALE
def ale_effects(f, X, feat, edges):
    b = bin_of(X[:, feat], edges)
    out = np.empty(len(X))
    for i in range(len(X)):
        r, l = np.array(X[i], dtype=float), np.array(X[i], dtype=float)
        r[feat], l[feat] = edges[b[i] + 1], edges[b[i]]
        out[i] = (float(np.asarray(f(r[None, :]))[0]) - float(np.asarray(f(l[None, :]))[0])) / (edges[b[i] + 1] - edges[b[i]])
    return out


def interp_gaps(v):
    """Linear in the bin index between known neighbours, constant beyond the outermost ones."""
    known = [k for k, x in enumerate(v) if not math.isnan(x)]
    if not known:
        return None
    out = []
    for k, x in enumerate(v):
        if not math.isnan(x):
            out.append(x)
            continue
        l = [j for j in known if j < k]
        r = [j for j in known if j > k]
        if not l:
            out.append(v[r[0]])
        elif not r:
            out.append(v[l[-1]])
        else:
            a, b = l[-1], r[0]
            out.append(v[a] + (v[b] - v[a]) * (k - a) / (b - a))
    return np.array(out)


def ale_params(xs, eff, edges):
    b = bin_of(xs, edges)
    K = len(edges) - 1
    mean, var, n = [], [], []
    for k in range(K):
        e = [eff[i] for i in range(len(xs)) if b[i] == k]
        n.append(len(e))
        m = sum(e) / len(e) if e else math.nan
        mean.append(m)
        var.append(sum((x - m) ** 2 for x in e) / len(e) if len(e) > 1 else math.nan)
    return np.array(n), interp_gaps(mean), interp_gaps(var)


def accumulate(x, edges, per_bin):
    """Integral of the piecewise constant per_bin from the left-most edge to x; constant outside."""
    out = []
    for v in x:
        v = min(max(v, edges[0]), edges[-1])
        s = 0.0
        for k in range(len(per_bin)):
            lo, hi = edges[k], min(edges[k + 1], v)
            if hi > lo:
                s += (hi - lo) * per_bin[k]
        out.append(s)
    return np.array(out)


def ale_center(edges, mean, lo, hi, mode, k=100):
    if mode in (True, "zero_integral"):
        g = np.linspace(lo, hi, k)
        g = 0.5 * (g[1:] + g[:-1])
        return accumulate(g, edges, mean).mean()
    if mode == "zero_start":
        return accumulate([lo], edges, mean)[0]
    return 0.0


class AleRef:
    """xs, eff: feature values and local effects of the instances inside the axis limits."""

    def __init__(self, xs, eff, edges, lo, hi):
        self.edges, self.lo, self.hi = np.asarray(edges, float), lo, hi
        self.n, self.mean, self.var = ale_params(xs, eff, self.edges)

    def defined(self):
        return self.mean is not None and self.var is not None

    def eval(self, x, centering=False):
        return accumulate(x, self.edges, self.mean) - ale_center(self.edges, self.mean, self.lo, self.hi, centering)

    def heter(self, x):
        return accumulate(x, self.edges, np.sqrt(self.var))


def fd_jac(f, X, eps=1e-8):
    X = np.asarray(X, float)
    J = np.zeros(X.shape)
    for d in range(X.shape[1]):
        P = X.copy()
        P[:, d] += eps
        J[:, d] = (np.asarray(f(P), float) - np.asarray(f(X), float)) / eps
    return J


# ------------------------------------------------------------------ Shapley
def shapley(f, X):
    """Exact interventional Shapley values of every row, background = X itself."""
    N, D = X.shape
    v = {}
    for r in range(D + 1):
        for S in itertools.combinations(range(D), r):
            Z = np.repeat(np.asarray(X, float)[None, :, :], N, axis=0)      # Z[i, b] = background row b
            for s in S:
                Z[:, :, s] = X[:, s][:, None]
            v[S] = np.asarray(f(Z.reshape(N * N, D)), float).reshape(N, N).mean(axis=1)
    phi = np.zeros((N, D))
    for j in range(D):
        rest = [d for d in range(D) if d != j]
        for r in range(D):
            w = math.factorial(r) * math.factorial(D - r - 1) / math.factorial(D)
            for S in itertools.combinations(rest, r):
                phi[:, j] += w * (v[tuple(sorted(S + (j,)))] - v[S])
    return phi


class ShapRef:
    def __init__(self, f, X, feat, lo, hi):
        phi = shapley(f, X)[:, feat]
        o = np.argsort(X[:, feat], kind="stable")
        self.x, self.y = np.asarray(X, float)[o, feat], phi[o]
        self.lo, self.hi = lo, hi
        self.mean = UnivariateSpline(self.x, self.y)
        self.std = UnivariateSpline(self.x, np.abs(self.y - self.mean(self.x)))

    def const(self, mode, k=100):
        if mode in (True, "zero_integral"):
            g = np.linspace(self.lo, self.hi, k)
            return np.trapz(self.mean(g), g) / (self.hi - self.lo)
        if mode == "zero_start":
            return float(self.mean(self.lo))
        return 0.0

    def eval(self, x, centering=False):
        return self.mean(x) - self.const(centering)

    def heter(self, x):
        return self.std(x)
