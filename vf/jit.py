"""A second copy of copt whose kernels are compiled by numba.

The environment copt runs in has no numba, so that copt falls back to
interpreted kernels.  A compatible numba lies outside of its path: with it, a
separate copy of the package is imported, in the worker only (numba's threads
do not survive a fork).
"""
import contextlib
import importlib
import io
import os
import sys
import warnings

EXTRA = "/opt/numba-extra"
_state = {}


def available():
    return os.path.isdir(os.path.join(EXTRA, "numba"))


def _ours():
    return {k: m for k, m in sys.modules.items() if k == "copt" or k.startswith("copt.")}


def _load():
    if "mods" in _state:
        return _state["mods"]
    # reads and writes out of bounds become exceptions, and loops declared
    # parallel really run on several threads
    os.environ.update(NUMBA_BOUNDSCHECK="1", NUMBA_NUM_THREADS="3")
    plain = _ours()
    for k in plain:
        del sys.modules[k]
    blocked = sys.modules.pop("numba", None)
    sys.path.append(EXTRA)
    try:
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")
            import numba
            import numba.core.errors as errors
            for name in plain:
                importlib.import_module(name)
        _state.update(mods=_ours(), error=errors.NumbaError, njit=numba.njit)
    finally:
        sys.path.remove(EXTRA)
        for k in _ours():
            del sys.modules[k]
        sys.modules.update(plain)
        if blocked is not None:
            sys.modules["numba"] = blocked
    return _state["mods"]


@contextlib.contextmanager
def active():
    """import copt gives the compiled copy"""
    mods = _load()
    plain = _ours()
    sys.modules.update(mods)
    try:
        yield mods["copt"]
    finally:
        sys.modules.update(plain)


def njit(f):
    _load()
    return _state["njit"](f)


def error():
    _load()
    return _state["error"]
