"""A stand-in for cupy: arrays in device memory, for symbolic and concrete runs.

What it takes from cupy's documentation: device arrays index, assign, reshape
and compute as numpy's do, never convert to a numpy array implicitly (cupy
raises TypeError), numpy's functions given device arrays are carried out by
cupy's of the same name, mixing host and device arrays is refused, asarray
copies host data to the device and asnumpy back, always into new memory.
"""
import types

import numpy as _np

# numpy functions that do not dispatch on the type of their argument
_CREATE = {"array", "asarray", "asanyarray", "ascontiguousarray", "asfortranarray", "require", "frombuffer"}


class DevArray:
    __array_priority__ = 2000

    def __init__(self, inner):
        self.inner = inner

    shape = property(lambda s: s.inner.shape)
    dtype = property(lambda s: s.inner.dtype)
    ndim = property(lambda s: s.inner.ndim)
    size = property(lambda s: s.inner.size)
    itemsize = property(lambda s: s.inner.itemsize)
    nbytes = property(lambda s: s.inner.nbytes)
    strides = property(lambda s: s.inner.strides)
    flags = property(lambda s: s.inner.flags)
    T = property(lambda s: DevArray(s.inner.T))

    def __array__(self, *a, **k):
        raise TypeError("Implicit conversion to a NumPy array is not allowed. Please use `.get()`")

    def __array_function__(self, func, types_, args, kwargs):
        m = MODULE[0]
        if not hasattr(m, func.__name__):
            return NotImplemented
        return getattr(m, func.__name__)(*args, **kwargs)

    def __array_ufunc__(self, ufunc, method, *args, **kw):
        if method != "__call__":
            return NotImplemented
        return getattr(MODULE[0], ufunc.__name__)(*args, **kw)

    def __getitem__(self, index):
        index = index if isinstance(index, tuple) else (index,)
        if not any(e is Ellipsis for e in index):
            index = index + (Ellipsis,)
        return DevArray(self.inner[_unwrap(index)])

    def __setitem__(self, index, value):
        self.inner[_unwrap(index)] = _operand(value)

    def _op(name):  # noqa
        def f(self, *args):
            r = getattr(self.inner, name)(*[_operand(a) for a in args])
            return r if r is NotImplemented else wrap(r)

        f.__name__ = name
        return f

    for _n in ("add", "radd", "sub", "rsub", "mul", "rmul", "truediv", "rtruediv", "lt", "le", "gt", "ge", "eq",
               "ne", "pow", "floordiv", "mod"):
        locals()[f"__{_n}__"] = _op(f"__{_n}__")
    for _n in ("neg", "pos", "abs"):
        locals()[f"__{_n}__"] = _op(f"__{_n}__")
    del _n
    __hash__ = None

    def _iop(name):  # noqa
        def f(self, other):
            self.inner = getattr(self.inner, name)(_operand(other))
            return self

        return f

    for _n in ("iadd", "isub", "imul", "itruediv"):
        locals()[f"__{_n}__"] = _iop(f"__{_n}__")
    del _n

    def _method(name):  # noqa
        def f(self, *args, **kw):
            return wrap(getattr(self.inner, name)(*args, **kw))

        return f

    for _n in ("transpose", "copy", "astype", "ravel", "flatten", "reshape", "squeeze", "swapaxes", "view",
               "all", "any", "sum", "min", "max", "mean"):
        locals()[_n] = _method(_n)
    del _n

    def fill(self, v):
        self.inner[...] = _operand(v)

    def get(self, *a, **k):
        return self.inner.copy()

    def set(self, arr):
        self.inner[...] = arr

    def item(self, *a):
        return self.inner.item(*a)

    def __len__(self):
        return len(self.inner)

    def __iter__(self):
        return (self[i] for i in range(len(self)))

    def __bool__(self):
        return bool(self.inner)

    def __float__(self):
        return float(self.inner)

    def __repr__(self):
        return f"device {self.inner!r}"


def is_host(x):
    return isinstance(x, _np.ndarray) or (hasattr(x, "mem") and hasattr(x, "_dmap"))


def wrap(x):
    if is_host(x):
        return DevArray(x)
    if isinstance(x, tuple):
        return tuple(wrap(e) for e in x)
    if isinstance(x, list):
        return [wrap(e) for e in x]
    return x


def unwrap(x):
    return x.inner if isinstance(x, DevArray) else x


def _unwrap(x):
    if isinstance(x, tuple):
        return tuple(_unwrap(e) for e in x)
    return unwrap(x)


def _operand(x):
    if isinstance(x, DevArray):
        return x.inner
    if is_host(x) and len(x.shape) > 0:
        raise TypeError(f"Unsupported type {type(x)}")
    if isinstance(x, (list, tuple)):
        return type(x)(_operand(e) for e in x)
    return x


MODULE = [None]


class _Cupy(types.ModuleType):
    """the module itself, over numpy or its symbolic stand-in"""

    def __init__(self, np, ndarray):
        super().__init__("cupy")
        self.__dict__["_np"], self.__dict__["ndarray"] = np, ndarray
        self.__dict__["_made"] = {}

    def asarray(self, a, dtype=None, order=None):
        if isinstance(a, DevArray):
            return a if dtype is None or _np.dtype(dtype) == a.dtype else a.astype(dtype)
        return DevArray(self._np.array(a, dtype=dtype))

    def array(self, a, dtype=None, copy=True, order="K"):
        return DevArray(self._np.array(unwrap(a), dtype=dtype, order=order))

    def ascontiguousarray(self, a, dtype=None):
        if isinstance(a, DevArray):
            return DevArray(self._np.ascontiguousarray(a.inner, dtype=dtype))
        return DevArray(self._np.array(a, dtype=dtype, order="C"))

    def asnumpy(self, a, stream=None, order="C", out=None):
        if not isinstance(a, DevArray):
            return self._np.asarray(a)
        r = self._np.array(a.inner, order=order)
        if out is not None:
            out[...] = r
            return out
        return r

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        v = getattr(self._np, name)
        if isinstance(v, type) or not callable(v):
            return v
        if name not in self._made:
            def f(*args, **kw):
                return wrap(v(*[_operand(a) for a in args], **{k: _operand(x) for k, x in kw.items()}))

            f.__name__ = name
            self._made[name] = f
        return self._made[name]

    def __dir__(self):
        return [n for n in dir(self._np) if not n.startswith("_")]


class _Dispatch(types.ModuleType):
    """numpy's stand-in, handing calls with device arrays to the device's module"""

    def __init__(self, np, cupy):
        super().__init__("numpy")
        self.__dict__["_np"], self.__dict__["_cupy"], self.__dict__["_made"] = np, cupy, {}

    def __getattr__(self, name):
        v = getattr(self._np, name)
        if isinstance(v, type) or not callable(v):
            return v
        if name not in self._made:
            def f(*args, **kw):
                flat = list(kw.values())
                for a in args:
                    flat.extend(a) if isinstance(a, (list, tuple)) else flat.append(a)
                if any(isinstance(a, DevArray) for a in flat):
                    if name in _CREATE:
                        raise TypeError("Implicit conversion to a NumPy array is not allowed. Please use `.get()`")
                    return getattr(self._cupy, name)(*args, **kw)
                return v(*args, **kw)

            f.__name__ = name
            self._made[name] = f
        return self._made[name]


def modules(symbolic):
    if symbolic:
        from . import npshim

        np = npshim.numpy
    else:
        np = _np
    cupy = _Cupy(np, DevArray)
    MODULE[0] = cupy
    out = {"cupy": cupy}
    if symbolic:
        out["numpy"] = _Dispatch(np, cupy)
    return out
