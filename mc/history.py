"""Explicit-state search over call histories of one real object.

Node = (canonical digest of every attribute of the object, specification state).  The specification state says
what the user asked for last (per feature); the expected answer of a query is computed on a FRESH object that only
received that last request.  Every transition is executed on a freshly built object by replaying the shortest known
history, so nothing depends on copying objects."""
import collections
import time

import numpy as np

from mc.common import figure, captured
from mc.engine import Violation, digest
from mc import ref


class Op:
    """run(obj) -> observable result; `spec(s)` -> new specification state (None: unchanged);
    `setup(s)` -> list of ops that bring a fresh object to what the query depends on."""

    def __init__(self, name, run, spec=None, setup=None, query=True):
        self.name, self.run, self.spec, self.setup, self.query = name, run, spec, setup, query


def observe(op, obj):
    try:
        return ("ok", op.run(obj))
    except (AssertionError, ValueError, TypeError, KeyError, IndexError, ZeroDivisionError, AttributeError, Exception) as e:
        return ("raises", type(e).__name__)


def difference(a, b, tol, path="result"):
    """None if equal, else a description"""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray) or isinstance(a, (float, np.floating)) or isinstance(b, (float, np.floating)):
        try:
            x, y = np.asarray(a, float), np.asarray(b, float)
        except (TypeError, ValueError):
            return "%s: %r, expected %r" % (path, a, b)
        if x.shape != y.shape:
            return "%s: shape %r, expected %r" % (path, x.shape, y.shape)
        if not ref.close(x, y, tol):
            return "%s: got %s, expected %s" % (path, np.array2string(x, threshold=30, precision=9), np.array2string(y, threshold=30, precision=9))
        return None
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return "%s: keys %r, expected %r" % (path, sorted(a), sorted(b))
        for k in a:
            d = difference(a[k], b[k], tol, "%s[%r]" % (path, k))
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return "%s: %d items, expected %d" % (path, len(a), len(b))
        for i, (p, q) in enumerate(zip(a, b)):
            d = difference(p, q, tol, "%s[%d]" % (path, i))
            if d:
                return d
        return None
    return None if a == b else "%s: %r, expected %r" % (path, a, b)


def drawn(call):
    with figure() as fig:
        call()
        return fig.snapshot()


def printed(call):
    with captured() as out:
        call()
    return out.getvalue()


def search(c, build, ops, spec0, depth, tol=1e-7, budget=100000, seconds=None):
    """Breadth-first until closure or depth.  Returns (closed?, deepest level, states)."""
    memo, t0 = {}, time.time()

    def expected(op, spec):
        key = (op.name, spec)
        if key not in memo:
            o = build()
            for s in (op.setup(spec) if op.setup else []):
                s.run(o)
            memo[key] = observe(op, o)
        return memo[key]

    seen = {}
    first = build()
    start = (c.abstract_state(vars(first)), spec0)
    seen[start] = ()
    frontier = collections.deque([(start, ())])
    closed, deepest, transitions = True, 0, 0
    while frontier:
        (node, hist) = frontier.popleft()
        if len(hist) >= depth or (seconds and time.time() - t0 > seconds):
            closed = False
            continue
        deepest = max(deepest, len(hist) + 1)
        for k, op in enumerate(ops):
            o = build()
            for h in hist:
                observe(ops[h], o)
            c.op(len(hist) + 1)
            transitions += 1
            c.extra_traces += 1
            got = observe(op, o)
            if op.query:
                want = expected(op, node[1])
                d = difference(got, want, tol)
                if d:
                    raise Violation("after %s: %s answers differently from a fresh object with the last fit only: %s"
                                    % ([ops[h].name for h in hist], op.name, d))
            elif got[0] == "raises":
                raise Violation("after %s: %s raises %s" % ([ops[h].name for h in hist], op.name, got[1]))
            nspec = op.spec(node[1]) if op.spec else node[1]
            nxt = (c.abstract_state(vars(o), nspec), nspec)
            if nxt not in seen:
                seen[nxt] = hist + (k,)
                frontier.append((nxt, hist + (k,)))
                if len(seen) > budget:
                    return False, deepest, len(seen)
    c.trace.append(("search", "closed=%s depth=%d states=%d transitions=%d" % (closed, deepest, len(seen), transitions)))
    return closed, deepest, len(seen)
