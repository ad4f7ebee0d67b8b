"""Makes `import geotiepoints` mean /repo's current tree with freshly built extension modules."""
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import warnings

for _var in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_var] = "1"
sys.dont_write_bytecode = True

from . import build as _build  # noqa: E402


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, directory, names):
        self.directory = directory
        self.names = names

    def find_spec(self, fullname, path=None, target=None):
        if fullname not in self.names:
            return None
        filename = os.path.join(self.directory, fullname + ".so")
        loader = importlib.machinery.ExtensionFileLoader(fullname, filename)
        return importlib.util.spec_from_file_location(fullname, filename, loader=loader)


def setup(flavour="plain"):
    """Build and install the import hook; returns the directory of the built modules."""
    directory = _build.build(flavour)
    if flavour == "traced":
        import ctypes
        ctypes.CDLL(os.path.join(directory, "rt.so"), mode=ctypes.RTLD_GLOBAL)
    sys.meta_path.insert(0, _Finder(directory, set(_build.module_names())))
    sys.path.insert(0, _build.REPO)
    import geotiepoints
    if os.path.dirname(os.path.abspath(geotiepoints.__file__)) != os.path.join(_build.REPO, "geotiepoints"):
        raise RuntimeError("wrong geotiepoints: %s" % geotiepoints.__file__)
    for name in _build.module_names():
        mod = __import__(name, fromlist=["x"])
        if os.path.dirname(mod.__file__) != directory:
            raise RuntimeError("stale extension module: %s" % mod.__file__)
    warnings.filterwarnings("ignore", message=".*may result in poor quality.*")
    warnings.filterwarnings("ignore", category=RuntimeWarning)
    import dask
    dask.config.set(scheduler="synchronous")
    return directory
