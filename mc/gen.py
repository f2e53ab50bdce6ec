"""The alphabets: black boxes with known Jacobians, and small data sets that are forced to exercise the
shortcuts in the code (ties, boundary hits, duplicates, constant columns, integer data, D = 1, ...)."""
import itertools

import numpy as np


class Model:
    """A black box with an analytic Jacobian. Calls are recorded when `log` is a list.

    The models only add, multiply and compare, element by element: np.power and matrix products round differently
    for differently laid out arrays, and a finite difference divides that by 1e-8."""

    def __init__(self, name, f, jac, int_out=False):
        self.mc_name, self._f, self._jac, self.int_out = name, f, jac, int_out
        self.log = None

    def f(self, X):
        X = np.asarray(X)
        if self.log is not None:
            self.log.append(np.array(X))
        y = self._f(X)
        return y.astype(int) if self.int_out else np.asarray(y, dtype=float)

    def jac(self, X):
        return np.asarray(self._jac(np.asarray(X, dtype=float)), dtype=float)

    def __repr__(self):
        return self.mc_name


A = [1.25, -0.75, 0.5, 2.0]
B = {(0, 1): 0.625, (0, 2): -1.5, (1, 2): 0.375, (0, 3): 0.25, (1, 3): -0.5, (2, 3): 1.0}
C = [0.375, 0.5, -0.25, 0.125]
MANY = 64        # models of many features: dyadic coefficients, different for every feature and pair
A += [((d * 37) % 64 - 32) / 16.0 + 0.03125 for d in range(4, MANY)]
C += [((d * 23) % 32 - 16) / 32.0 + 0.015625 for d in range(4, MANY)]
B.update({(i, j): ((i * 19 + j * 41) % 64 - 32) / 32.0 + 0.0078125 for j in range(4, MANY) for i in range(j)})


def poly(D):
    """Different dependence on every feature, every pairwise interaction and a cubic in each."""

    def f(X):
        y = 0.1875
        for i in range(D):
            y = y + A[i] * X[:, i] + C[i] * X[:, i] ** 2 + 0.0625 * (i + 1) * (X[:, i] * X[:, i] * X[:, i])
            for j in range(i + 1, D):
                y = y + B[(i, j)] * X[:, i] * X[:, j]
        return y

    def jac(X):
        J = np.zeros(X.shape)
        for i in range(D):
            J[:, i] = A[i] + 2 * C[i] * X[:, i] + 0.1875 * (i + 1) * X[:, i] ** 2
            for j in range(D):
                if j != i:
                    J[:, i] += B[(min(i, j), max(i, j))] * X[:, j]
        return J

    return Model("poly", f, jac)


def lin(D):
    w = np.array(A[:D])
    return Model("lin", lambda X: sum(w[k] * X[:, k] for k in range(D)) - 0.5, lambda X: np.tile(w, (X.shape[0], 1)))


def prod(D):
    """x0*x1 (+ x2): the classical interaction."""
    def f(X):
        return X[:, 0] * X[:, 1 % D] + (X[:, 2] if D > 2 else 0.0)

    def jac(X):
        J = np.zeros(X.shape)
        if D == 1:
            J[:, 0] = 2 * X[:, 0]
            return J
        J[:, 0], J[:, 1] = X[:, 1], X[:, 0]
        if D > 2:
            J[:, 2] = 1.0
        return J

    return Model("prod", f, jac)


def const(D):
    return Model("const", lambda X: np.full(X.shape[0], 3.5), lambda X: np.zeros(X.shape))


def step(D):
    """piecewise constant, like a tree ensemble"""
    return Model("step", lambda X: np.where(X[:, 0] > 0.5, 2.0, -1.0) + np.where(X[:, D - 1] >= 1.0, 0.5 * X[:, 0], 0.0),
                 lambda X: np.stack([np.where(X[:, D - 1] >= 1.0, 0.5, 0.0)] + [np.zeros(len(X))] * (D - 1), axis=1))


def intout(D):
    """integer-valued output (e.g. class labels)"""
    return Model("int-output", lambda X: np.floor(2 * X[:, 0] + X[:, D - 1]), lambda X: np.zeros(X.shape), int_out=True)


def additive(D):
    def f(X):
        y = 0.75
        for i in range(D):
            y = y + A[i] * X[:, i] + (i + 1) * 0.25 * X[:, i] ** 2
        return y

    def jac(X):
        return np.stack([A[i] + (i + 1) * 0.5 * X[:, i] for i in range(D)], axis=1)

    m = Model("additive", f, jac)
    m.part = lambda i, x: A[i] * np.asarray(x) + (i + 1) * 0.25 * np.asarray(x) ** 2
    m.dpart = lambda i, x: A[i] + (i + 1) * 0.5 * np.asarray(x)
    return m


def cond(D, foc=1, t=0.0):
    """x0 goes up when x_foc > t and down otherwise."""

    def f(X):
        return np.where(X[:, foc] > t, 1.0, -1.0) * 2.0 * X[:, 0] + 0.25 * X[:, D - 1]

    def jac(X):
        J = np.zeros(X.shape)
        J[:, 0] = np.where(X[:, foc] > t, 2.0, -2.0)
        J[:, D - 1] += 0.25
        return J

    return Model("cond%d" % foc, f, jac)


# ------------------------------------------------------------------ data
def other_columns(N, D, feat):
    """Fingerprint values for the columns that are not of interest: all distinct, dyadic."""
    base = [0.5, -1.25, 2.0, 0.125, -0.375, 1.5, -2.0, 0.875, 3.0, -0.625, 1.125, -1.75]
    X = np.zeros((N, D))
    for d in range(D):
        X[:, d] = [base[(i * (2 * d + 1) + 3 * d) % len(base)] + 0.03125 * d for i in range(N)]
    return X


def with_column(col, D, feat):
    N = len(col)
    X = other_columns(N, D, feat)
    X[:, feat] = col
    return X


def columns(values, N):
    """All N-tuples over values (every order, every multiplicity)."""
    return [np.array(c, dtype=float) for c in itertools.product(values, repeat=N)]


class Data:
    def __init__(self, name, X):
        self.mc_name, self.X = name, X

    def __repr__(self):
        return self.mc_name


def dat(name, rows):
    return Data(name, np.array(rows, dtype=float))


def small_sets():
    """Hand-shaped data sets; each is here for a reason stated in its name."""
    L = [
        dat("3x2 generic", [[0, 1], [1, -0.5], [2.5, 0.25]]),
        dat("4x3 generic", [[0, 1, 2], [1, -0.5, 0.5], [2, 0.25, -1], [4, 2, 0.75]]),
        dat("5x1 one feature", [[0], [1], [1.5], [2], [4]]),
        dat("2x2 minimal", [[0, 1], [2, -1]]),
        dat("4x2 duplicate rows", [[0, 1], [0, 1], [2, 3], [2, 3]]),
        dat("4x2 ties in foi", [[1, 0], [1, 2], [3, -1], [3, 0.5]]),
        dat("5x2 boundary hits", [[0, 1], [1, 2], [2, -1], [3, 0.5], [4, -2]]),
        dat("4x2 negative unsorted", [[-1, 2], [-5, 0], [3, 1], [-2.5, -4]]),
        dat("4x2 constant other", [[0, 1], [1, 1], [2, 1], [3, 1]]),
    ]
    return L


def grid_points(lo, hi):
    """positions that matter: outside, the ends, interior, unsorted with repetitions."""
    m = 0.5 * (lo + hi)
    q = lo + 0.3125 * (hi - lo)
    return [
        Data("all", np.array([hi, lo, m, m, q, lo - 1.0, hi + 2.0])),
        Data("lo", np.array([lo])),
        Data("hi", np.array([hi])),
        Data("inner", np.array([q])),
    ]
