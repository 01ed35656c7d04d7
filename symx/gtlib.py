"""A stand-in for gt4py's storages, for symbolic and for concrete runs.

What it takes from gt4py 0.x (storage/storage.py): storages are subclasses of
numpy's array with a backend and a default origin; empty, zeros and ones make
CPU storages of new memory whose layout depends on the backend, which need not
be contiguous; `data` of a CPU storage is the same memory as a plain array; GPU storages, made
if managed memory is asked for, show their device memory as `gpu_view`.
"""
import types

import numpy as _np

from . import devlib

ORDERS = {"numpy": None, "gtx86": None, "gtmc": "perm", "gtcuda": None}


def _perm(nd):
    """layout of the third backend: the first axis varies fastest, and is padded"""
    return list(range(nd))[::-1]


def modules(symbolic, alloc, pad):
    """alloc(shape, dtype, order): uninitialised plain array; pad(): extra elements of the fastest axis"""
    if symbolic:
        from .sarray import SymArray

        base = SymArray
    else:
        base = _np.ndarray

    class Storage(base):
        if symbolic:
            def __init__(self, arr):
                SymArray.__init__(self, arr.mem, arr._offs, arr._dmap, arr.shape)
        else:
            def __new__(cls, arr):
                return arr.view(cls)

        backend = property(lambda s: s.__dict__.get("_backend"))
        default_origin = property(lambda s: s.__dict__.get("_origin"))
        is_stencil_view = True

    class CPUStorage(Storage):
        @property
        def data(self):
            return self.plain() if symbolic else self.view(_np.ndarray)

    class GPUStorage(Storage):
        @property
        def gpu_view(self):
            return devlib.DevArray(self.plain() if symbolic else self.view(_np.ndarray))

        def __setitem__(self, index, value):
            base.__setitem__(self, index, devlib.unwrap(value))

    class ExplicitlySyncedGPUStorage(Storage):
        pass

    made = []

    def empty(backend, default_origin, shape, dtype, mask=None, *, managed_memory=False):
        if backend not in ORDERS:
            raise RuntimeError(f"Backend {backend} is not registered")
        shape, default_origin = tuple(shape), tuple(default_origin)
        if len(default_origin) != len(shape):
            raise ValueError("default_origin and shape have different lengths")
        if ORDERS[backend] and len(shape) > 0:
            big = (shape[0] + pad(),) + shape[1:]
            arr = alloc(big, dtype, _perm(len(shape)))[(slice(0, shape[0]),)]
        else:
            arr = alloc(shape, dtype, "C")
        cls = CPUStorage
        if backend == "gtcuda":
            cls = GPUStorage if managed_memory else ExplicitlySyncedGPUStorage
        st = cls(arr)
        st._backend, st._origin = backend, default_origin
        made.append(st)
        return st

    def filled(v):
        def f(backend, default_origin, shape, dtype, mask=None, *, managed_memory=False):
            st = empty(backend, default_origin, shape, dtype, mask, managed_memory=managed_memory)
            st[...] = v
            return st

        return f

    zeros, ones = filled(0), filled(1)
    empty.__name__, zeros.__name__, ones.__name__ = "empty", "zeros", "ones"
    inner = types.ModuleType("gt4py.storage.storage")
    outer = types.ModuleType("gt4py.storage")
    top = types.ModuleType("gt4py")
    for m in (inner, outer):
        m.ExplicitlySyncedGPUStorage = ExplicitlySyncedGPUStorage
        m.Storage, m.CPUStorage, m.GPUStorage = Storage, CPUStorage, GPUStorage
        m.empty, m.zeros, m.ones = empty, zeros, ones
    outer.storage, top.storage = inner, outer
    top.made = made
    return {"gt4py": top, "gt4py.storage": outer, "gt4py.storage.storage": inner}
