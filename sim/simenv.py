"""Process environment for every simulated run.  Import before numpy."""
import os, sys, tempfile, atexit, shutil

REPO = os.environ.get("SIM_REPO", "/repo")
VERIF = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))

_FIXED = {
    "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
    "MPLBACKEND": "Agg", "PYTHONDONTWRITEBYTECODE": "1", "NUMEXPR_NUM_THREADS": "1",
}


def setup():
    """Fix the environment; re-exec once under the project's interpreter."""
    if os.environ.get("PYTHONHASHSEED") != "0" and sys.argv and sys.argv[0].endswith("check.py"):
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable] + sys.argv)
    os.environ.update(_FIXED)
    sys.dont_write_bytecode = True
    if "MPLCONFIGDIR" not in os.environ or not os.environ["MPLCONFIGDIR"].startswith("/tmp/simmpl"):
        d = tempfile.mkdtemp(prefix="simmpl")
        os.environ["MPLCONFIGDIR"] = d
        pid = os.getpid()

        def clean():
            if os.getpid() == pid:
                shutil.rmtree(d, ignore_errors=True)
        atexit.register(clean)
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    here = os.path.dirname(os.path.abspath(__file__))
    if here not in sys.path:
        sys.path.insert(0, here)


def poison_memory():
    """Uninitialised arrays hold arbitrary bits: give them values nothing can mistake for a result."""
    import numpy as np
    empty, empty_like = np.empty, np.empty_like

    def fill(a):
        k = a.dtype.kind
        if k in "fc":
            a.fill(np.nan)
        elif k in "iu":
            a.fill(np.iinfo(a.dtype).max - 7)
        elif k == "b":
            a.fill(True)
        return a

    def poisoned_empty(*a, **k):
        return fill(empty(*a, **k))

    def poisoned_empty_like(*a, **k):
        return fill(empty_like(*a, **k))
    np.empty, np.empty_like = poisoned_empty, poisoned_empty_like


def import_library():
    """Import everything once, in the zygote, without calling any of it."""
    import warnings
    warnings.simplefilter("ignore")
    import simsched
    simsched.install_lock_seam()
    import numpy, scipy, scipy.stats, scipy.optimize, scipy.integrate, scipy.interpolate  # noqa
    import scipy.stats._distn_infrastructure  # noqa
    import pandas, matplotlib  # noqa
    matplotlib.use("Agg")
    import matplotlib.pyplot  # noqa
    import pycircstat2, pycircstat2.base, pycircstat2.distributions, pycircstat2.clustering  # noqa
    import pycircstat2.hypothesis, pycircstat2.correlation, pycircstat2.regression  # noqa
    import pycircstat2.utils, pycircstat2.descriptive, pycircstat2.visualization  # noqa
    f = os.path.realpath(pycircstat2.__file__)
    if not f.startswith(os.path.realpath(REPO) + os.sep):
        raise SystemExit(f"pycircstat2 imported from {f}, not from {REPO}")
    import pickle, copy, importlib.metadata  # noqa
    poison_memory()
    for m in list(sys.modules.values()):
        g = getattr(m, "__file__", None)
        if g and g.endswith(".py") and simsched.traced(os.path.realpath(g)):
            simsched.cleanup_lines(g)
    return pycircstat2
