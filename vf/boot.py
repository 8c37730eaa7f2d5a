"""Makes Hypothesis importable next to the numpy/scipy that copt runs with.

The virtual environment that runs copt does not have Hypothesis, and the one
that has Hypothesis has another numpy/scipy.  Only Hypothesis and its pure
Python dependencies are taken from the latter.
"""
import glob
import importlib.abc
import importlib.machinery
import os
import sys
import zipfile

NAMES = {"hypothesis", "sortedcontainers", "attr", "attrs"}
SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
WHEELS = "/opt/veriftools/wheels"


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, where):
        self.where = where

    def find_spec(self, name, path=None, target=None):
        top = name.split(".")[0]
        if path is None and (top in NAMES or top.startswith("_hypothesis")):
            return importlib.machinery.PathFinder.find_spec(name, [self.where])
        return None


def install():
    try:
        import hypothesis  # noqa: F401
        return
    except ImportError:
        pass
    where = SITE
    if not os.path.isdir(os.path.join(SITE, "hypothesis")):
        where = os.path.join(os.path.dirname(os.path.dirname(
            os.path.abspath(__file__))), "out", "hyp")
        if not os.path.isdir(os.path.join(where, "hypothesis")):
            os.makedirs(where, exist_ok=True)
            for pat in ("hypothesis-*.whl", "sortedcontainers-*.whl", "attrs-*.whl"):
                for w in glob.glob(os.path.join(WHEELS, pat)):
                    zipfile.ZipFile(w).extractall(where)
    sys.meta_path.append(_Finder(where))
    import hypothesis  # noqa: F401
