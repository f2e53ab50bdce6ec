"""Stateless explicit exploration engine.

A *scenario* is a deterministic function of a `Ctx`.  Every decision it takes (which data set,
which operation comes next, which answer the environment gives) goes through `Ctx.pick`.
Choice 0 is the default.  The engine runs the scenario once for EVERY sequence of choices whose
number of non-default *deviation* picks is within the scenario's bound (ordinary picks are
unbounded, i.e. enumerated completely), generation by generation (number of non-default choices),
so the first counterexample is also the simplest one.

Each generation is cut into chunks; each chunk runs in a freshly forked process whose parent never
executed any scenario, so process-global state of the library under test is a deterministic
function of the chunk.
"""
import hashlib
import json
import math
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback

import numpy as np


class HarnessError(Exception):
    """The harness itself is wrong (never reported as a violation)."""


class Violation(AssertionError):
    def __init__(self, message, key=None):
        super().__init__(message)
        self.key = key


class Skip(Exception):
    """This combination of choices is outside the property's domain."""


class ScenarioTimeout(BaseException):
    pass


def digest(obj):
    h = hashlib.blake2b(digest_size=8)
    _feed(h, obj, {}, 0)
    return h.digest()


def _feed(h, o, seen, depth):
    if isinstance(o, (bool, int, str, bytes, type(None))):
        h.update(repr(o).encode())
    elif isinstance(o, (float, np.floating)):
        h.update(("%.10g" % float(o)).encode())
    elif isinstance(o, (np.integer, np.bool_)):
        h.update(repr(o.item()).encode())
    elif isinstance(o, np.ndarray):
        h.update(str(o.shape).encode())
        if o.dtype == object:
            for e in o.ravel():
                _feed(h, e, seen, depth + 1)
        elif o.dtype.kind == "f":
            h.update(np.char.mod("%.9g", o.ravel()).astype("S").tobytes() if o.size else b"")
        else:
            h.update(np.ascontiguousarray(o).tobytes())
    elif isinstance(o, (list, tuple)):
        h.update(b"[")
        for e in o:
            _feed(h, e, seen, depth + 1)
            h.update(b",")
        h.update(b"]")
    elif isinstance(o, (set, frozenset)):
        for e in sorted(digest(e) for e in o):
            h.update(e)
    elif isinstance(o, dict):
        h.update(b"{")
        for k in sorted(o, key=repr):
            _feed(h, k, seen, depth + 1)
            h.update(b":")
            _feed(h, o[k], seen, depth + 1)
        h.update(b"}")
    elif id(o) in seen or depth > 40:
        h.update(b"<cycle>")
    elif callable(o) and not hasattr(o, "__dict__"):
        h.update(getattr(o, "__qualname__", "callable").encode())
    elif callable(o) and hasattr(o, "__qualname__"):
        h.update(o.__qualname__.encode())
    elif hasattr(o, "get_knots") and hasattr(o, "get_coeffs"):
        # SciPy splines carry uninitialised work memory: they are identified by knots and coefficients
        _feed(h, [o.get_knots(), o.get_coeffs()], seen, depth + 1)
    elif hasattr(o, "__dict__"):
        seen[id(o)] = 1
        h.update(type(o).__name__.encode())
        _feed(h, vars(o), seen, depth + 1)
    else:
        h.update(type(o).__name__.encode())


def short(o, n=160):
    if hasattr(o, "mc_name"):
        o = o.mc_name
    if isinstance(o, np.ndarray):
        o = o.tolist()
    if callable(o) and hasattr(o, "__name__"):
        return o.__name__
    s = o if isinstance(o, str) else repr(o)
    return s if len(s) <= n else s[: n - 3] + "..."


class Ctx:
    def __init__(self, prefix, tier):
        self.prefix = tuple(prefix)
        self.tier = tier
        self.points = []      # (number of options, is_deviation)
        self.choices = []
        self.trace = []
        self.states = set()
        self.ops = 0
        self.extra_traces = 0
        self.outcome = None

    def pick(self, name, options, dev=False):
        options = list(options)
        if not options:
            raise HarnessError("no options for %s" % name)
        i = len(self.points)
        k = self.prefix[i] if i < len(self.prefix) else 0
        if k >= len(options):
            raise HarnessError("replay diverged at %s: option %d of %d" % (name, k, len(options)))
        self.points.append((len(options), bool(dev)))
        self.choices.append(k)
        o = options[k]
        # an option may be given as (label, value)
        if isinstance(o, Opt):
            self.trace.append((name, o.label))
            return o.value
        self.trace.append((name, short(o)))
        return o

    def op(self, n=1):
        self.ops += n

    def state(self, *things):
        self.states.add(digest([self.trace, things]))
        if self.outcome is None:
            self.outcome = [short(t, 200) for t in things]

    def abstract_state(self, *things):
        """A state identified by its content only (used by explicit-state searches)."""
        d = digest(things)
        self.states.add(d)
        return d


class Opt:
    def __init__(self, label, value):
        self.label, self.value = label, value


class Scenario:
    def __init__(self, name, func, bound=99, timeout=240):
        self.name, self.func, self.bound, self.timeout = name, func, bound, timeout


def _children(ctx, bound):
    out = []
    cost = 0
    n = len(ctx.prefix)
    for i, (k, dev) in enumerate(ctx.points):
        if i >= n:
            c = cost + (1 if dev else 0)
            if c <= bound:
                base = ctx.choices[:i]
                for alt in range(1, k):
                    out.append(tuple(base + [alt]))
        if dev and ctx.choices[i] != 0:
            cost += 1
    return out


def _alarm(signum, frame):
    raise ScenarioTimeout()


def execute(scn, prefix, tier, seed):
    """One execution.  Returns (ctx, failure or None, status)."""
    ctx = Ctx(prefix, tier)
    np.random.seed(seed % (2 ** 32))
    random.seed(seed)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(scn.timeout)
    fail, status = None, "ok"
    try:
        scn.func(ctx)
    except Skip:
        status = "skip"
    except HarnessError:
        raise
    except ScenarioTimeout:
        fail = {"kind": "timeout", "message": "execution did not finish in %d s" % scn.timeout, "key": None}
    except Violation as e:
        fail = {"kind": "violation", "message": str(e), "key": e.key}
    except Exception as e:  # an unexpected exception out of the library is a violation
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if "/mc/" not in f.filename]
        at = ("%s:%s in %s" % (os.path.basename(where[-1].filename), where[-1].lineno, where[-1].name)) if where else \
            ("harness %s:%s" % (os.path.basename(tb[-1].filename), tb[-1].lineno))
        fail = {"kind": "exception",
                "message": "%s: %s (at %s)" % (type(e).__name__, str(e)[:300], at),
                "key": None, "traceback": traceback.format_exc()[-3000:]}
    finally:
        signal.alarm(0)
    if fail is not None:
        status = "fail"
    if status != "skip" and len(ctx.choices) < len(ctx.prefix) and fail is None:
        raise HarnessError("replay of %r consumed only %d choices" % (prefix, len(ctx.choices)))
    return ctx, fail, status


_G = {}


def _work(args):
    chunk = args
    scn, tier, seed = _G["scn"], _G["tier"], _G["seed"]
    devnull = open(os.devnull, "w")
    sys.stdout = devnull
    sys.stderr = devnull
    res = {"runs": 0, "skips": 0, "ops": 0, "states": set(), "children": [], "fails": [],
           "extra": 0, "samples": [], "harness": None}
    for idx, p in enumerate(chunk):
        try:
            ctx, fail, status = execute(scn, p, tier, seed)
        except HarnessError as e:
            res["harness"] = "%s: prefix %r" % (e, p)
            return res
        except BaseException as e:
            res["harness"] = "%s: prefix %r %s" % (e, p, traceback.format_exc()[-800:])
            return res
        res["ops"] += ctx.ops
        res["states"] |= ctx.states
        res["extra"] += ctx.extra_traces
        res["children"].extend(_children(ctx, scn.bound))
        if status == "skip":
            res["skips"] += 1
        else:
            res["runs"] += 1
        if fail is not None:
            fail.update(prefix=list(ctx.choices), trace=ctx.trace, scenario=scn.name)
            fail["chunk"] = [list(q) for q in chunk[: idx + 1]]
            res["fails"].append(fail)
        elif status == "ok" and len(res["samples"]) < 1:
            res["samples"].append({"scenario": scn.name, "choices": ctx.trace, "outcome": ctx.outcome})
    return res


def _reproduces(scn, prefixes, tier, seed):
    """Run prefixes in a fresh forked process; does the last one fail?"""
    _G.update(scn=scn, tier=tier, seed=seed)
    with mp.get_context("fork").Pool(1) as pool:
        r = pool.map(_work, [[tuple(p) for p in prefixes]])[0]
    return bool(r["fails"]) and r["fails"][-1]["prefix"][: len(prefixes[-1])] == list(prefixes[-1])


class Result:
    def __init__(self):
        self.runs = self.skips = self.ops = self.extra = 0
        self.states = set()
        self.samples = []
        self.fails = []
        self.capped = []
        self.per_scenario = {}


def explore(scns, tier, seed, procs=None, budget_s=600, is_known=lambda f: False, log=None):
    procs = procs or min(8, os.cpu_count() or 1)
    t0 = time.time()
    hard = budget_s * 1.35          # an execution under way at the end of the budget is waited for at most until here
    R = Result()
    for scn in scns:
        _G.update(scn=scn, tier=tier, seed=seed)
        gen = [()]
        depth = 0
        st = {"executions": 0, "outside_domain": 0, "states": 0, "max_nondefault": 0}
        states = set()
        while gen:
            left = budget_s - (time.time() - t0)
            if left <= 0:
                R.capped.append("%s: wall budget reached; all executions with < %d non-default choices were covered"
                                % (scn.name, depth))
                break
            size = max(1, min(300, math.ceil(len(gen) / (procs * 4.0))))
            chunks = [gen[i: i + size] for i in range(0, len(gen), size)]
            nxt, fails, timed_out = [], [], False
            with mp.get_context("fork").Pool(min(procs, len(chunks)), maxtasksperchild=1) as pool:
                it = pool.imap(_work, chunks, chunksize=1)
                for _ in chunks:
                    left = budget_s - (time.time() - t0)
                    try:
                        r = it.next(timeout=max(1, min(max(left, 1) + scn.timeout, hard - (time.time() - t0))))
                    except mp.TimeoutError:
                        timed_out = True
                        break
                    if r["harness"]:
                        raise HarnessError("%s: %s" % (scn.name, r["harness"]))
                    st["executions"] += r["runs"]
                    st["outside_domain"] += r["skips"]
                    R.runs += r["runs"]
                    R.skips += r["skips"]
                    R.ops += r["ops"]
                    R.extra += r["extra"]
                    states |= r["states"]
                    fails.extend(r["fails"])
                    nxt.extend(r["children"])
                    if len(R.samples) < 400:
                        R.samples.extend(r["samples"])
                    if left < 0:
                        timed_out = True
                        break
            if timed_out:
                R.capped.append("%s: wall budget reached in generation %d (non-default choices); "
                                "all executions with fewer were covered" % (scn.name, depth))
                R.fails.extend(fails)
                break
            st["max_nondefault"] = depth
            R.fails.extend(fails)
            if any(not is_known(f) for f in fails):
                R.capped.append("%s: stopped after generation %d because of a violation" % (scn.name, depth))
                break
            gen = nxt
            depth += 1
        st["states"] = len(states)
        R.states |= states
        R.per_scenario[scn.name] = st
        if log:
            log("%-34s %s  t=%.1fs" % (scn.name, st, time.time() - t0))
        if any(not is_known(f) for f in R.fails):
            break
    R.wall = time.time() - t0
    return R
