"""C27: explaining leaves the rest of the process as it was.

Every public operation is executed (after others) in a process whose global settings have been given unusual values; everything
outside the operation's own object is compared before and after, and the interpreter's audit events are watched meanwhile."""
import itertools
import locale
import logging
import os
import random
import signal
import sys
import threading
import warnings

import matplotlib
import matplotlib.pyplot as plt
import numpy as np
from matplotlib._pylab_helpers import Gcf

import effector.interaction as inter
from mc import gen
from mc.boot import effector
from mc.common import GLOBAL, REGIONAL, make, make_regional, expect, captured, is_pdp, is_ale
from mc.engine import Scenario, Skip, Opt
from mc.checks import c08, c14

SHAP = True

# ---------------------------------------------------------------- audit events (files, processes, network)
WATCH = {"on": False, "seen": []}
FORBIDDEN = ("os.remove", "os.rename", "os.mkdir", "os.rmdir", "os.chdir", "os.putenv", "os.unsetenv", "os.system", "os.exec", "os.posix_spawn", "os.fork",
             "subprocess.Popen", "socket.connect", "socket.bind", "shutil.rmtree", "shutil.copyfile", "os.chmod", "os.truncate", "os.kill", "tempfile.mkstemp",
             "tempfile.mkdtemp", "webbrowser.open")


def audit(event, args):
    if not WATCH["on"]:
        return
    if event == "open":
        path, mode, flags = (list(args) + [None] * 3)[:3]
        if isinstance(mode, str) and any(ch in mode for ch in "wax+") or isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT):
            if str(path) != os.devnull:
                WATCH["seen"].append("opens %s for writing" % (path,))
    elif event in FORBIDDEN:
        WATCH["seen"].append("%s%r" % (event, tuple(args)[:2]))


HOOKED = []


def watch():
    if not HOOKED:
        sys.addaudithook(audit)
        HOOKED.append(True)
    WATCH["seen"].clear()
    WATCH["on"] = True


# ---------------------------------------------------------------- process-wide settings
class Process:
    """unusual but legal values for everything process-wide, and the way back"""

    def __init__(self, profile):
        self.profile = profile

    def __enter__(self):
        self.saved = (np.geterr(), np.get_printoptions(), list(warnings.filters), dict(matplotlib.rcParams), np.random.get_state(), random.getstate(),
                      logging.getLogger().level, logging.root.manager.disable, sys.getrecursionlimit(), np.geterrcall(),
                      dict(os.environ), os.getcwd(), list(logging.getLogger().handlers), (sys.excepthook, sys.displayhook, warnings.showwarning), plt.isinteractive(), locale.setlocale(locale.LC_ALL),
                      [(s, signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM)], list(sys.path), sys.stdout, sys.stderr, matplotlib.get_backend())
        logging.getLogger().handlers[:] = []
        plt.close("all")
        if self.profile == "own":
            np.seterr(divide="warn", over="ignore", under="warn", invalid="ignore")
            np.set_printoptions(precision=3, threshold=77, suppress=True, linewidth=63)
            warnings.filters[:] = []
            warnings.simplefilter("ignore")
            warnings.filterwarnings("ignore", message="my own filter", category=UserWarning)
            matplotlib.rcParams.update({"font.size": 7.5, "figure.figsize": [3.0, 2.0], "axes.grid": True, "lines.linewidth": 0.7, "figure.max_open_warning": 0})
            logging.getLogger().setLevel(logging.ERROR)
            sys.setrecursionlimit(sys.getrecursionlimit() + 123)
        else:
            np.seterr(all="ignore")
            warnings.filters[:] = []
            warnings.simplefilter("ignore")
            matplotlib.rcParams.update({"figure.max_open_warning": 0})
        np.random.seed(20240 + (self.profile == "own"))
        random.seed(5)
        # the caller's own figures
        self.fig, self.ax = plt.subplots(1, 2)
        self.ax[0].plot([1, 2, 3], [4, 5, 7], "k--", label="mine")
        self.ax[0].set_title("mine")
        self.ax[0].set_xlim(0, 10)
        self.ax[1].bar([1, 2], [3, 4])
        self.ax[1].set_ylabel("mine too")
        plt.sca(self.ax[1])
        return self

    def __exit__(self, *a):
        WATCH["on"] = False
        plt.close("all")
        np.seterr(**self.saved[0])
        np.seterrcall(self.saved[9])
        np.set_printoptions(**{k: v for k, v in self.saved[1].items() if k != "override_repr"})
        warnings.filters[:] = self.saved[2]
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            matplotlib.rcParams.update(self.saved[3])
        np.random.set_state(self.saved[4])
        random.setstate(self.saved[5])
        logging.getLogger().setLevel(self.saved[6])
        logging.disable(self.saved[7])
        sys.setrecursionlimit(self.saved[8])
        os.environ.clear()
        os.environ.update(self.saved[10])
        os.chdir(self.saved[11])
        logging.getLogger().handlers[:] = self.saved[12]
        sys.excepthook, sys.displayhook, warnings.showwarning = self.saved[13]
        (plt.ion if self.saved[14] else plt.ioff)()
        locale.setlocale(locale.LC_ALL, self.saved[15])
        for s, h in self.saved[16]:
            if signal.getsignal(s) is not h:
                signal.signal(s, h)
        sys.path[:] = self.saved[17]
        sys.stdout, sys.stderr = self.saved[18:20]
        if matplotlib.get_backend() != self.saved[20]:
            matplotlib.use(self.saved[20])

    def settings(self):
        h = logging.getLogger().handlers
        return {"numpy error handling": str(np.geterr()), "numpy's error call": str(np.geterrcall()),
                "numpy print options": repr(sorted((k, str(v)) for k, v in np.get_printoptions().items())),
                "warning filters": repr(list(warnings.filters)), "showwarning": repr(warnings.showwarning),
                "matplotlib settings": repr(sorted((k, str(v)) for k, v in matplotlib.rcParams.items())), "matplotlib backend": matplotlib.get_backend(),
                "interactive mode": plt.isinteractive(), "environment": repr(sorted(os.environ.items())), "working directory": os.getcwd(),
                "logging": repr((logging.getLogger().level, [id(x) for x in h], logging.root.manager.disable)),
                "recursion limit": sys.getrecursionlimit(), "locale": locale.setlocale(locale.LC_ALL), "import path": repr(sys.path),
                "python's random generator": repr(random.getstate()), "threads": threading.active_count(), "signal handlers": repr([str(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM)]),
                "standard streams": (id(sys.stdout), id(sys.stderr), id(sys.stdin), id(sys.excepthook), id(sys.displayhook)),
                "tracing": repr((sys.gettrace(), sys.getprofile())), "builtins": len(vars(__import__("builtins")))}

    def figures(self, nums):
        """the caller's figures, and those of earlier plots, which are the caller's by now"""
        out = []
        for n in nums:
            if not plt.fignum_exists(n):
                out.append((n, "closed"))
                continue
            fig = Gcf.figs[n].canvas.figure
            out.append((n, [round(float(x), 9) for x in fig.get_size_inches()], len(fig.axes), len(fig.texts)))
            for ax in fig.axes:
                out.append((ax.get_title(), ax.get_xlabel(), ax.get_ylabel(), tuple(ax.get_xlim()), tuple(ax.get_ylim()), len(ax.lines), len(ax.patches), len(ax.collections), len(ax.images),
                            len(ax.texts), ax.get_legend() is None, tuple(np.asarray(l.get_ydata(), float).tobytes() for l in ax.lines)))
        return out


WARM = set()


def warm(key, build, ops):
    """whatever is imported lazily is imported now (all settings are put back afterwards)"""
    for op in ops:
        if op is not None and (key, op[0]) not in WARM:
            WARM.add((key, op[0]))
            with Process("plain"):
                o = build[1](None)
                for s in ops[:ops.index(op) + 1]:
                    if s is not None:
                        s[1](o)


def rng():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2], s[3], s[4])


def perform(c, p, o, op):
    """one operation, with everything outside its object compared"""
    name, run, draws, plots = op
    nums = list(plt.get_fignums())
    before, figs, cur, r = p.settings(), p.figures(nums), plt.gcf().number, rng()
    watch()
    try:
        out = run(o)
    finally:
        WATCH["on"] = False
    after = p.settings()
    for k in before:
        expect(before[k] == after[k], "%s changes the %s: %.300s, was %.300s", name, k, after[k], before[k])
    expect(not WATCH["seen"], "%s %s", name, "; ".join(WATCH["seen"][:3]))
    now = list(plt.get_fignums())
    expect(set(nums) <= set(now), "%s closes figures it did not open", name)
    expect(figs == p.figures(nums), "%s changes a figure it did not open: %s, was %s", name, p.figures(nums), figs)
    if not plots:
        expect(now == nums and plt.gcf().number == cur, "%s opens a figure or changes the current one", name)
        expect(plt.gca() is p.ax[1] or cur != p.fig.number, "%s changes the current axes", name)
    else:
        expect(len(now) == len(nums) + plots, "%s opens %d figures, %d expected", name, len(now) - len(nums), plots)
    if not draws:
        expect(rng() == r, "%s advances NumPy's random generator although nothing is drawn", name)
    plt.figure(p.fig.number)
    plt.sca(p.ax[1])
    c.op()
    return out


def flat(v):
    if isinstance(v, (tuple, list)):
        return tuple(flat(x) for x in v)
    return np.asarray(v, float).tobytes() if isinstance(v, np.ndarray) else repr(v) if isinstance(v, (int, float, str, np.generic, type(None))) else type(v).__name__


# ---------------------------------------------------------------- the operations: (name, run, draws from the random generator?, figures opened)
def global_ops(kind, X):
    xs = np.array([X[:, 0].max(), X[:, 0].min(), 1.0])
    out = [("fit(0)", lambda o: o.fit(0), False, 0), ("fit('all', centering)", lambda o: o.fit("all", centering=True), False, 0),
           ("eval(0)", lambda o: o.eval(0, xs), False, 0), ("eval(1, heterogeneity, centering)", lambda o: o.eval(1, xs, heterogeneity=True, centering="zero_start"), False, 0)]
    if is_pdp(kind):
        out += [("plot(ice)", lambda o: o.plot(0, heterogeneity="ice", centering=True, nof_ice="all", show_avg_output=kind == "PDP"), False, 1),
                ("plot(some ice)", lambda o: o.plot(1, heterogeneity="ice", nof_ice=3), True, 1),
                ("plot(std)", lambda o: o.plot(0, heterogeneity="std", y_limits=[-3, 3]), False, 1),
                ("eval(return_all)", lambda o: o.eval(0, xs, return_all=True, use_vectorized=False), False, 0)]
    elif kind == "SHAP":
        out += [("plot(std)", lambda o: o.plot(0, heterogeneity="std", centering=True), False, 1), ("plot(shap_values)", lambda o: o.plot(1, heterogeneity="shap_values", y_limits=[-3, 3]), False, 1)]
    else:
        out += [("plot(heterogeneity)", lambda o: o.plot(0, heterogeneity=True, centering=True, y_limits=[-3, 3]), False, 1),
                ("plot(plain)", lambda o: o.plot(1, heterogeneity=False, centering=False, scale_x={"mean": 1.0, "std": 2.0}), False, 1)]
        if kind != "ALE":
            out += [("fit(dp)", lambda o: o.fit(1, binning_method="dp"), False, 0), ("fit(fixed)", lambda o: o.fit(0, binning_method="fixed"), False, 0)]
    return out


def effects_of(kind, X, m):
    return -0.5 * m.jac(X) if kind == "RHALE-eff" else None


def global_effects(c):
    kind = c.pick("method", GLOBAL)
    X = c08.dataset("16x2")
    m = gen.poly(2)
    ops = global_ops(kind, X)
    kw = {"nof_instances": "all"} if not is_ale(kind) else {}
    hows = [Opt("all instances", kw), Opt("a subset", {"nof_instances": 12})]
    how = c.pick("instances", hows if kind in ("PDP", "ALE", "RHALE-jac") or c.tier == "thorough" else hows[:1])
    first = c.pick("before", [None] + [Opt(o[0], o) for o in ops])
    second = c.pick("operation", [Opt(o[0], o) for o in ops])
    if kind == "SHAP" and c.tier == "quick" and first is not None and first[0] not in ("fit(0)", "plot(std)"):
        raise Skip()
    profile = c.pick("process", ["own", "plain"])
    build = ("constructor", lambda _: make(kind, X, m, effects=effects_of(kind, X, m), **how), bool(how.get("nof_instances") == 12), 0)
    outs = []
    warm((kind, str(how)), build, [first, second])
    for _ in range(2):          # the same state of the generator gives the same answers; and nothing is special about the first time
        with Process(profile) as p:
            o = perform(c, p, None, build)
            seq = [s for s in (first, second) if s is not None]
            outs.append([flat(perform(c, p, o, s)) for s in seq])
    expect(outs[0] == outs[1], "the same calls answer differently with the generator in the same state")
    c.state(kind, how, first and first[0], second[0], outs[0])


def regional_ops(kind, X):
    kw = dict(heter_pcg_drop_thres=-1e9, heter_small_enough=-1.0, max_depth=1, nof_candidate_splits_for_numerical=2, min_points_per_subregion=3)
    if is_ale(kind):
        kw["binning_method"] = effector.binning_methods.Fixed(nof_bins=3, min_points_per_bin=0, cat_limit=0)
    if kind in ("PDP", "dPDP-jac", "dPDP-num", "SHAP") or kind == "SHAP":
        kw.pop("binning_method", None)
    xs = np.array([X[:, 0].max(), X[:, 0].min()])

    def said(call):
        def run(o):
            with captured() as out:
                call(o)
            return None
        return run
    style = {"PDP": "ice", "SHAP": "shap_values"}.get(kind, "ice" if "PDP" in kind else True)
    return [("fit(0)", lambda o: o.fit(0, **kw), False, 0), ("eval(0, 1)", lambda o: o.eval(0, 1, xs, heterogeneity=True, centering=True), False, 0),
            ("plot(0, 1)", lambda o: o.plot(0, 1, heterogeneity=style, centering=True), "PDP" in kind, 1), ("plot(0, 0, rescaled)", lambda o: o.plot(0, 0, heterogeneity=style, scale_x_list=[{"mean": 1.0, "std": 2.0}] * X.shape[1]), "PDP" in kind, 1),
            ("show_partitioning", said(lambda o: o.show_partitioning(0)), False, 0), ("describe_subregions", said(lambda o: o.describe_subregions(0, only_important=False)), False, 0),
            ("get_node_info", lambda o: o.get_node_info(0, 1)[2], False, 0)]


def regional_effects(c):
    kind = c.pick("method", REGIONAL if c.tier == "thorough" else [k for k in REGIONAL if not k.endswith("num")])
    X = c14.data()
    m = gen.poly(3)
    ops = regional_ops(kind, X)
    how = c.pick("instances", [Opt("all instances", {"nof_instances": "all"}), Opt("a subset", {"nof_instances": len(X) - 3})] if kind != "SHAP" or c.tier == "thorough" else [Opt("all instances", {"nof_instances": "all"})])
    second = c.pick("operation", [None] + [Opt(o[0], o) for o in ops])
    profile = c.pick("process", ["own", "plain"])
    if kind == "SHAP" and c.tier == "quick" and profile == "plain":
        raise Skip()
    build = ("constructor", lambda _: make_regional(kind, X, m, effects=effects_of(kind, X, m), cat_limit=4, **how), how["nof_instances"] != "all", 0)
    outs = []
    warm((kind, str(how)), build, [ops[0], second])
    for _ in range(2 if kind != "SHAP" else 1):
        with Process(profile) as p:
            o = perform(c, p, None, build)
            outs.append([flat(perform(c, p, o, s)) for s in [ops[0]] + ([second] if second is not None else [])])
    expect(outs[0] == outs[-1], "the same calls answer differently with the generator in the same state")
    c.state(kind, how, second and second[0], outs[0])


def scores_and_tools(c):
    X = c08.dataset("16x3")[:9]
    m = gen.poly(3)

    def quiet(call):
        def run(o):
            with captured():
                return call(o)
        return run
    what = c.pick("what", ["H-index", "REPID", "transformer", "binning"])
    profile = c.pick("process", ["own", "plain"])
    if what == "H-index":
        build = lambda _: inter.HIndex(X, m.f, nof_instances="all")
        ops = [("fit", quiet(lambda o: o.fit()), False, 0), ("eval_pairwise", lambda o: o.eval_pairwise(0, 1), False, 0), ("eval_one_vs_all", lambda o: o.eval_one_vs_all(1), False, 0), ("plot", quiet(lambda o: o.plot()), False, 2)]
    elif what == "REPID":
        build = lambda _: inter.REPID(X, m.f, m.jac, "all")
        ops = [("fit", quiet(lambda o: o.fit("all")), False, 0), ("eval_one_vs_all", lambda o: o.eval_one_vs_all(1), False, 0), ("plot", quiet(lambda o: o.plot()), False, 1)]
    elif what == "transformer":
        from effector.partitioning import DataTransformer
        build = lambda _: DataTransformer({"feat_0": [], "feat_1": [dict(type="cont", feature=0, position=1.0)], "feat_2": [dict(type="cat", feature=1, position=1.0)]})
        ops = [("transform", lambda o: o.transform(X), False, 0)]
    else:
        import effector.binning_methods as bm
        L = np.stack([X.min(axis=0), X.max(axis=0)])
        build = lambda _: None
        ops = [("find_limits(%s)" % w, lambda o, w=w: bm.find_limits(X, m.jac(X), 1, L, w), False, 0) for w in ("greedy", "dp", "fixed")]
    first = c.pick("before", [None] + [Opt(o[0], o) for o in ops])
    op = c.pick("operation", [Opt(o[0], o) for o in ops])
    warm(what, (None, build), [first, op])
    with Process(profile) as p:
        o = perform(c, p, None, ("constructor", build, False, 0))
        for s in (first, op):
            if s is not None:
                perform(c, p, o, s)
    c.state(what, first and first[0], op[0])


BOUNDS = ("every operation (constructor, fits, evaluations, plots, reports, node queries, interaction scores, transformer, bin finder) alone and after every other one, all instances or a random subset, in a process with default and with unusual global settings")
ASSUMPTIONS = ["the first use of a third-party package (lazy imports) happens before", "reports may print, fits of the H-index too; nothing is claimed about the standard error stream"]


def scenarios(tier):
    return [Scenario("global-effects", global_effects), Scenario("regional-effects", regional_effects), Scenario("scores-and-tools", scores_and_tools)]
