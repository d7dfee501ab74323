"""Loads the code under test from the repository's working tree, behind the seams."""
import os
import sys

os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("MPLBACKEND", "Agg")
sys.dont_write_bytecode = True

REPO = os.environ.get("VERIF_REPO", "/repo")
PREFIX = os.path.join(os.path.realpath(REPO), "CADMium") + os.sep
HERE = os.path.dirname(os.path.abspath(__file__))

_cad = None


def load():
    """Import CADMium (once), with the simulator's seams in place."""
    global _cad
    if _cad is not None:
        return _cad
    import warnings
    warnings.simplefilter("ignore")
    import numpy as np
    from . import modstate, mp, seams
    seams.install()
    mp.install()
    # real pylibxc if there is one, else the stub (recorded in the evidence)
    try:
        import pylibxc  # noqa: F401
    except ImportError:
        sys.path.insert(0, os.path.join(HERE, "stubs"))
        import pylibxc  # noqa: F401
    sys.path.insert(0, REPO)
    import CADMium
    assert os.path.realpath(CADMium.__file__).startswith(os.path.realpath(REPO)), CADMium.__file__
    # the grid is plain shared read-only data; copying it into every simulated
    # worker would only cost time.  That nobody writes to it is itself checked.
    CADMium.Psgrid.__deepcopy__ = lambda self, memo: self
    np.seterr(all="warn")
    _cad = CADMium
    modstate.snapshot()
    return CADMium


def pylibxc_is_stub():
    import pylibxc
    return "stubs" in (pylibxc.__file__ or "")
