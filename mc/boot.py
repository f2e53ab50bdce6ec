"""Process set-up: determinism, no threads, no stale byte code, then import effector from /repo."""
import os
import sys
import tempfile
import warnings

for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS", "NUMEXPR_NUM_THREADS", "NUMBA_NUM_THREADS"):
    os.environ[_v] = "1"
os.environ["MPLBACKEND"] = "Agg"
os.environ["TQDM_DISABLE"] = "1"
os.environ.setdefault("MPLCONFIGDIR", os.path.join(tempfile.gettempdir(), "mc-mpl-%d" % os.getuid()))
warnings.filterwarnings("ignore")

import numpy as np  # noqa: E402
import scipy  # noqa: E402,F401
import scipy.interpolate  # noqa: E402,F401
import scipy.integrate  # noqa: E402,F401
import matplotlib  # noqa: E402

matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402
import shap  # noqa: E402,F401
import tqdm  # noqa: E402,F401

REPO = os.environ.get("MC_REPO", "/repo")


def import_effector():
    # compile /repo's current sources, never a cached .pyc, and write none
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(tempfile.gettempdir(), "mc-no-pyc-%d-%d" % (os.getpid(), os.getuid()))
    for m in [m for m in sys.modules if m == "effector" or m.startswith("effector.")]:
        del sys.modules[m]
    sys.path.insert(0, REPO)
    import effector
    where = os.path.realpath(os.path.dirname(effector.__file__))
    want = os.path.realpath(os.path.join(REPO, "effector"))
    if where != want:
        raise SystemExit("effector imported from %s, expected %s" % (where, want))
    np.seterr(all="ignore")
    warnings.filterwarnings("ignore")
    return effector


effector = import_effector()


def warm_shap():
    """Let numba compile the shap package's kernels once, before processes are forked (uses shap only)."""
    for X in (np.array([[0.0, 1.0], [1.0, 0.5], [2.0, -1.0]]), np.array([[0.0], [1.0], [2.0]]), np.array([[0.0, 1.0, 2.0, 1.0], [1.0, 1.0, 2.0, 3.0]])):
        f = lambda x: np.asarray(x, dtype=float)[:, 0] * 1.5
        shap.Explainer(f, X)(X)
