"""Process environment: pinned BLAS threads, real /repo sources, all of
robuststats imported once with the lock factories of `threading` observed."""
import os
import sys

REPO = os.environ.get("VSIM_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PINNED = {
    "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1", "PYTHONHASHSEED": None,
    "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg",
}


def setup():
    """To be called before numpy is imported."""
    for k, v in PINNED.items():
        if v is not None:
            os.environ[k] = v
    sys.dont_write_bytecode = True
    sys.path[:] = [REPO] + [p for p in sys.path if os.path.abspath(p or ".") != REPO]
    if VERIF not in sys.path:
        sys.path.insert(1, VERIF)


def load():
    import warnings
    warnings.simplefilter("ignore")
    import logging
    logging.getLogger().addHandler(logging.NullHandler())
    logging.getLogger().setLevel(logging.CRITICAL + 1)
    import tqdm
    tqdm.tqdm.monitor_interval = 0      # no real monitor thread
    from . import simlock
    simlock.install(REPO)
    import importlib
    import pkgutil
    import numpy, scipy.linalg, scipy.stats, sklearn.covariance       # noqa
    import joblib, pymanopt, pymanopt.solvers, pymanopt.manifolds     # noqa
    import autograd                                                   # noqa
    # ignore byte code found in the tree: sources decide
    sys.pycache_prefix = os.path.join(VERIF, ".scratch", "nopyc")
    import robuststats
    root = os.path.join(os.path.realpath(REPO), "robuststats")
    if not os.path.realpath(robuststats.__file__).startswith(root):
        raise RuntimeError("robuststats imported from " + robuststats.__file__)
    for m in pkgutil.walk_packages(robuststats.__path__, "robuststats."):
        importlib.import_module(m.name)
    sys.pycache_prefix = None
    import numpy as np
    np.seterr(all="ignore")
