"""Runs a harness natively with stand-ins for libraries that are not installed."""
import contextlib
import importlib
import sys


@contextlib.contextmanager
def libraries(env, mods):
    sys.modules.update(mods)
    _forget()
    try:
        env.util = importlib.import_module("fv3gfs.util")
        yield
    finally:
        for m in mods:
            sys.modules.pop(m, None)
        _forget()


def _forget():
    for m in list(sys.modules):
        if m == "fv3gfs" or m.startswith("fv3gfs."):
            del sys.modules[m]
