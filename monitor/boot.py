"""Import pyirf from the working tree of /repo without leaving traces there."""
import os
import sys
import tempfile
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")


def boot():
    sys.dont_write_bytecode = True
    os.environ.setdefault("MPLBACKEND", "Agg")
    os.environ.setdefault("SETUPTOOLS_SCM_PRETEND_VERSION", "0.14.0")
    scratch = tempfile.mkdtemp(prefix="pyirf-monitor-")
    for var in ("XDG_CACHE_HOME", "XDG_CONFIG_HOME", "MPLCONFIGDIR", "HOME"):
        os.environ[var] = scratch
    import numpy  # noqa
    import scipy.interpolate, scipy.spatial, scipy.stats, scipy.optimize, scipy.ndimage  # noqa
    import astropy.units, astropy.table, astropy.coordinates  # noqa
    from astropy.utils import iers

    iers.conf.auto_download = False
    iers.conf.auto_max_age = None
    # never use cached bytecode of pyirf, always compile the sources of this tree
    sys.pycache_prefix = scratch
    sys.path.insert(0, REPO)
    warnings.simplefilter("ignore")
    import pyirf  # noqa

    here = os.path.realpath(os.path.dirname(pyirf.__file__))
    expected = os.path.realpath(os.path.join(REPO, "pyirf"))
    if here != expected:
        raise RuntimeError(f"pyirf imported from {here}, not from {expected}")
    return scratch
