"""Stand-in for the numpy module, as seen by the code under test."""
import types

import numpy as _np

from . import core, sarray
from .core import SymBool, SymInt, SymReal, Unsupported, is_sym
from .sarray import Mem, SymArray, _tobool, fresh_garbage, from_concrete


class CArr(_np.ndarray):
    """Concrete-shaped integer array (rank tables); entries may be symbolic."""

    def __getitem__(self, idx):
        if isinstance(idx, WhereIdx):
            return idx.select(self)
        if isinstance(idx, tuple) and len(idx) == 1 and isinstance(idx[0], WhereIdx):
            return idx[0].select(self)
        if isinstance(idx, SymInt):
            n = self.shape[0]
            if not _tobool(core.And(idx >= -n, idx < n)):
                raise IndexError("index out of bounds")
            i = core.ite(idx < 0, idx + n, idx)
            if self.ndim == 1:
                return _pick([(i == k, self[k]) for k in range(n)])
            return super().__getitem__(core.CTX.concretize(i))
        if isinstance(idx, tuple) and any(isinstance(e, SymInt) for e in idx):
            if all(isinstance(e, (SymInt, int, _np.integer)) for e in idx) and len(idx) == self.ndim:
                bounds = core.And(*[core.And(e >= 0, e < n) for e, n in zip(idx, self.shape)])
                fit = _affine({p: self[p] for p in _np.ndindex(*self.shape)}) if core.CTX.entailed(bounds) else None
                if fit is not None:
                    return fit[-1] + sum(a * e for a, e in zip(fit, idx))
                opts = []
                for pos in _np.ndindex(*self.shape):
                    opts.append(
                        (core.And(*[_eqidx(e, p, n) for e, p, n in zip(idx, pos, self.shape)]), self[pos])
                    )
                if not _tobool(core.Or(*[c for c, _ in opts])):
                    raise IndexError("index out of bounds")
                return _pick(opts)
            idx = tuple(core.CTX.concretize(e) if isinstance(e, SymInt) else e for e in idx)
        return super().__getitem__(idx)


    def __eq__(self, other):
        if not isinstance(other, SymInt):
            return super().__eq__(other)
        r = _np.empty(self.shape, dtype=object)
        for pos in _np.ndindex(*self.shape):
            r[pos] = other == self[pos]
        r = r.view(EqTable)
        r.table, r.other = self, other
        return r

    __hash__ = None


class EqTable(CArr):
    """where a table of distinct numbers equals a symbolic one"""

    table = other = None
    __hash__ = None


def _affine(values):
    """coefficients (one per coordinate, then the constant) of the affine function with these values, or None"""
    if not values or not all(isinstance(v, (int, _np.integer)) and not isinstance(v, bool) for v in values.values()):
        return None
    pos = list(values)
    zero = (0,) * len(pos[0])
    if zero not in values:
        return None
    c = int(values[zero])
    co = []
    for k in range(len(zero)):
        unit = tuple(1 if q == k else 0 for q in range(len(zero)))
        co.append(int(values[unit]) - c if unit in values else 0)
    for p, v in values.items():
        if c + sum(a * b for a, b in zip(co, p)) != v:
            return None
    return tuple(co) + (c,)


def _eqidx(e, p, n):
    return core.Or(e == p, e == p - n)


def _pick(opts):
    out = None
    for c, v in reversed(opts):
        v = v.item() if isinstance(v, _np.generic) else v
        out = v if out is None else core.ite(c, v, out)
    return out


class WhereIdx(tuple):
    """Result of where() on a condition true at exactly one (symbolic) place."""

    def __new__(cls, conds, shape, expr=None, places=None):
        self = tuple.__new__(cls, ())
        self.conds = conds
        self.dims = shape
        self.expr = expr
        self.places = places  # value of the symbolic number -> place in the table
        return self

    def _pick(self, value):
        """value(place) at the place, as an affine function of the number (or its digits) if it is one"""
        if self.places is not None:
            vals = {v: value(pos) for v, pos in self.places.items()}
            fit = _affine({(v,): x for v, x in vals.items()})
            if fit is not None:
                return fit[0] * self.expr + fit[1]
            for w in {n for n in self.dims if n > 1}:
                fit = _affine({divmod(v, w): x for v, x in vals.items()})
                if fit is not None:
                    return fit[0] * (self.expr // w) + fit[1] * (self.expr % w) + fit[2]
            if self.conds is None:
                self.conds = [(pos, self.expr == v) for v, pos in self.places.items()]
        return _pick([(c, value(pos)) for pos, c in self.conds])

    def _axis(self, a):
        return _np.array([self._pick(lambda pos: int(pos[a]))], dtype=object).view(CArr)

    def __getitem__(self, a):
        return self._axis(a)

    def __len__(self):
        return len(self.dims)

    def __iter__(self):
        return iter([self._axis(a) for a in range(len(self.dims))])

    def select(self, arr):
        return _np.array([self._pick(lambda pos: arr[pos])], dtype=object).view(CArr)


ndarray = SymArray


def _symshape(shape):
    if isinstance(shape, (SymInt, int, _np.integer)):
        shape = (shape,)
    return tuple(s if isinstance(s, SymInt) else int(s) for s in shape)


def _check_dims(shape):
    for s in shape:
        if _tobool(s < 0):
            raise ValueError("negative dimensions are not allowed")


def _perm(shape, order):
    n = len(shape)
    return list(reversed(range(n))) if order == "F" else list(range(n))


def empty(shape, dtype=float, order="C"):
    shape = _symshape(shape)
    _check_dims(shape)
    return SymArray(fresh_garbage(shape, _np.dtype(dtype), _perm(shape, order)), owns=True)


def full(shape, fill_value, dtype=None, order="C"):
    shape = _symshape(shape)
    _check_dims(shape)
    z = SymReal.of(fill_value).z
    dt = _np.dtype(dtype) if dtype is not None else _np.dtype("float64")
    return SymArray(Mem(shape, dt, lambda idx: z, _perm(shape, order)), owns=True)


def zeros(shape, dtype=float, order="C"):
    return full(shape, 0, dtype, order)


def ones(shape, dtype=float, order="C"):
    return full(shape, 1, dtype, order)


def _like(a, dtype, order, maker):
    if not _isym(a):
        raise Unsupported("*_like of a concrete array")
    dt = a.dtype if dtype is None else dtype
    r = maker(a.shape, dt)
    if order in ("K", "A"):
        r.mem.order = a._korder()
    elif order == "F":
        r.mem.order = _perm(a.shape, "F")
    return r


def empty_like(a, dtype=None, order="K", subok=True, shape=None):
    if shape is not None:
        return empty(shape, a.dtype if dtype is None else dtype)
    return _like(a, dtype, order, empty)


def zeros_like(a, dtype=None, order="K", subok=True, shape=None):
    if shape is not None:
        return zeros(shape, a.dtype if dtype is None else dtype)
    return _like(a, dtype, order, zeros)


def ones_like(a, dtype=None, order="K", subok=True, shape=None):
    return _like(a, dtype, order, ones)


def full_like(a, fill_value, dtype=None, order="K", subok=True, shape=None):
    return _like(a, dtype, order, lambda s, d: full(s, fill_value, d))


def _isym(a):
    return type.__instancecheck__(SymArray, a)


def _has_sym(x):
    if is_sym(x):
        return True
    if isinstance(x, (list, tuple)):
        return any(_has_sym(e) for e in x)
    if isinstance(x, _np.ndarray):
        return x.dtype == object
    return False


def _c(x):
    return x.view(CArr) if isinstance(x, _np.ndarray) and not isinstance(x, CArr) else x


def array(obj, dtype=None, copy=True, order="K", subok=False, ndmin=0):
    if _isym(obj):
        dt = obj.dtype if dtype is None else dtype
        if not copy and _np.dtype(dt) == obj.dtype:
            return obj
        return obj._materialise(order, dt)
    if isinstance(obj, (list, tuple)) and any(_isym(o) for o in obj):
        return stack(list(obj))
    if _has_sym(obj):
        return _np.array(obj, dtype=object).view(CArr)
    return _c(_np.array(obj, dtype=dtype, copy=copy, ndmin=ndmin))


def asarray(obj, dtype=None, order=None):
    if _isym(obj):
        obj = obj.plain()
        if dtype is not None and _np.dtype(dtype) != obj.dtype:
            return obj._materialise("C", dtype)
        if order in ("C", "F") and not _tobool(obj.contig(order)):
            return obj._materialise(order)
        return obj
    if isinstance(obj, _np.ndarray):
        return obj
    return array(obj, dtype=dtype)


asanyarray = asarray


def ascontiguousarray(a, dtype=None):
    if not _isym(a):
        return _c(_np.ascontiguousarray(a, dtype=dtype))
    if a.ndim == 0:
        a = a.reshape(1)
    if dtype is not None and _np.dtype(dtype) != a.dtype:
        return a._materialise("C", dtype)
    if _tobool(a.contig("C")):
        return a
    return a._materialise("C")


def asfortranarray(a, dtype=None):
    if _tobool(a.contig("F")):
        return a
    return a._materialise("F")


def require(a, dtype=None, requirements=None):
    reqs = [r.upper() for r in ([requirements] if isinstance(requirements, str) else requirements or [])]
    if any(r in ("C", "C_CONTIGUOUS", "CONTIGUOUS") for r in reqs):
        return ascontiguousarray(a, dtype)
    return asarray(a, dtype)


def copy(a, order="K", subok=False):
    return a._materialise(order) if _isym(a) else _c(_np.copy(a))


def copyto(dst, src, casting="same_kind", where=True):
    if where is not True:
        raise Unsupported("copyto where")
    dst[...] = src


def _norm_axis(axis, nd):
    axis = int(axis)
    if not -nd <= axis < nd:
        raise _np.AxisError(axis, nd) if hasattr(_np, "AxisError") else ValueError("axis")
    return axis % nd


def flip(m, axis=None):
    if not _isym(m):
        return _c(_np.flip(m, axis))
    if axis is None:
        axes = range(m.ndim)
    elif isinstance(axis, tuple):
        axes = [_norm_axis(a, m.ndim) for a in axis]
    else:
        axes = [_norm_axis(axis, m.ndim)]
    return m[tuple(slice(None, None, -1) if d in axes else slice(None) for d in range(m.ndim))]


def fliplr(m):
    if not _isym(m):
        return _c(_np.fliplr(m))
    if m.ndim < 2:
        raise ValueError("Input must be >= 2-d.")
    return flip(m, 1)


def flipud(m):
    if not _isym(m):
        return _c(_np.flipud(m))
    if m.ndim < 1:
        raise ValueError("Input must be >= 1-d.")
    return flip(m, 0)


def transpose(a, axes=None):
    return a.transpose(axes) if _isym(a) else _c(_np.transpose(a, axes))


def swapaxes(a, x, y):
    return a.swapaxes(x, y) if _isym(a) else _c(_np.swapaxes(a, x, y))


def moveaxis(a, source, destination):
    if not _isym(a):
        return _c(_np.moveaxis(a, source, destination))
    nd = a.ndim
    src = [source] if isinstance(source, int) else list(source)
    dst = [destination] if isinstance(destination, int) else list(destination)
    src = [_norm_axis(s, nd) for s in src]
    dst = [_norm_axis(d, nd) for d in dst]
    order = [n for n in range(nd) if n not in src]
    for d, s in sorted(zip(dst, src)):
        order.insert(d, s)
    return a.transpose(order)


def rot90(m, k=1, axes=(0, 1)):
    if not _isym(m):
        return _c(_np.rot90(m, k, axes))
    axes = tuple(axes)
    if len(axes) != 2:
        raise ValueError("len(axes) must be 2.")
    nd = m.ndim
    if axes[0] == axes[1] or abs(axes[0] - axes[1]) == nd:
        raise ValueError("Axes must be different.")
    for a in axes:
        if a >= nd or a < -nd:
            raise ValueError(f"Axes={axes} out of range for array of ndim={nd}.")
    if isinstance(k, SymInt):
        k = core.CTX.concretize(k)
    k %= 4
    if k == 0:
        return m[:]
    if k == 2:
        return flip(flip(m, axes[0]), axes[1])
    order = list(range(nd))
    order[axes[0]], order[axes[1]] = order[axes[1]], order[axes[0]]
    if k == 1:
        return transpose(flip(m, axes[1]), order)
    return flip(transpose(m, order), axes[1])


def reshape(a, newshape, order="C"):
    return a.reshape(newshape) if _isym(a) else _c(_np.reshape(a, newshape))


def ravel(a, order="C"):
    return a.ravel() if _isym(a) else _c(_np.ravel(a))


def expand_dims(a, axis):
    if not _isym(a):
        return _c(_np.expand_dims(a, axis))
    idx = [slice(None)] * a.ndim
    idx.insert(axis if axis >= 0 else a.ndim + 1 + axis, None)
    return a[tuple(idx)]


def squeeze(a, axis=None):
    return a.squeeze(axis) if _isym(a) else _c(_np.squeeze(a, axis))


def broadcast_to(a, shape, subok=False):
    shape = _symshape(shape)
    fn = sarray.value_fn(a, shape, a.dtype)
    m = Mem(shape, a.dtype, fn)
    m.writeable = False
    return SymArray(m)


def stack(arrays, axis=0, out=None):
    arrays = list(arrays)
    if not any(_isym(a) for a in arrays):
        return _c(_np.stack(arrays, axis))
    shape = arrays[0].shape
    axis = axis % (len(shape) + 1)
    r = empty(shape[:axis] + (len(arrays),) + shape[axis:], arrays[0].dtype)
    for i, a in enumerate(arrays):
        for x, y in zip(a.shape, shape):
            if not _tobool(sarray.same(x, y)):
                raise ValueError("all input arrays must have the same shape")
        r[(slice(None),) * axis + (i,)] = a
    return r


def concatenate(arrays, axis=0, out=None, **kw):
    arrays = list(arrays)
    if not any(_isym(a) for a in arrays):
        return _c(_np.concatenate(arrays, axis))
    nd = arrays[0].ndim
    axis = axis % nd
    total = 0
    for a in arrays:
        total = total + a.shape[axis]
    shape = list(arrays[0].shape)
    shape[axis] = total
    r = empty(tuple(shape), arrays[0].dtype)
    pos = 0
    for a in arrays:
        r[(slice(None),) * axis + (slice(pos, pos + a.shape[axis]),)] = a
        pos = pos + a.shape[axis]
    return r


def negative(x, *a, **k):
    if a or k:
        raise Unsupported("negative(out)")
    return -x


def multiply(x, y, *a, **k):
    if a or k:
        raise Unsupported("multiply(out)")
    return x * y


def add(x, y, *a, **k):
    if a or k:
        raise Unsupported("add(out)")
    return x + y


def subtract(x, y, *a, **k):
    if a or k:
        raise Unsupported("subtract(out)")
    return x - y


def divide(x, y, *a, **k):
    if a or k:
        raise Unsupported("divide(out)")
    return x / y


true_divide = divide


def shape(a):
    return a.shape if hasattr(a, "shape") else _np.shape(a)


def ndim(a):
    return a.ndim if hasattr(a, "ndim") else _np.ndim(a)


def size(a, axis=None):
    if _isym(a):
        return a.size if axis is None else a.shape[axis]
    return _np.size(a, axis)


def isscalar(x):
    return is_sym(x) or _np.isscalar(x)


def iscomplexobj(x):
    return False


def shares_memory(a, b, *k):
    if _isym(a) and _isym(b) and a.mem is not b.mem:
        return False
    raise Unsupported("shares_memory")


may_share_memory = shares_memory


def arange(*args, **kw):
    if any(isinstance(a, SymInt) for a in args):
        args = tuple(core.CTX.concretize(a) if isinstance(a, SymInt) else a for a in args)
    return _np.arange(*args, **kw).view(CArr)


def prod(a, *args, **kw):
    if isinstance(a, (list, tuple)) and _has_sym(a):
        r = 1
        for x in a:
            r = r * x
        return r
    if _isym(a):
        raise Unsupported("prod")
    return _np.prod(a, *args, **kw)


def where(cond, *args):
    if args:
        if isinstance(cond, SymBool) and len(args) == 2:
            return core.ite(cond, *args)
        if _has_sym(args) or _isym(cond) or any(_isym(a) for a in args):
            raise Unsupported("where with branches")
        return _c(_np.where(_concbool(cond), *args))
    if isinstance(cond, EqTable) and cond.table is not None and cond.table.shape == cond.shape:
        places = {int(_np.ndarray.__getitem__(cond.table, p)): p for p in _np.ndindex(*cond.shape)
                  if isinstance(_np.ndarray.__getitem__(cond.table, p), (int, _np.integer))}
        n = cond.size
        if n and set(places) == set(range(n)) and core.CTX.entailed(core.And(cond.other >= 0, cond.other < n)):
            return WhereIdx(None, cond.shape, cond.other, places)
    if isinstance(cond, _np.ndarray) and cond.dtype == object:
        conds = []
        for pos in _np.ndindex(*cond.shape):
            c = _np.ndarray.__getitem__(cond, pos)
            if isinstance(c, SymBool):
                k = core.CTX.known_value(c)
                c = c if k is None else k
            if c is False:
                continue
            conds.append((pos, c))
        if any(isinstance(c, SymBool) for _, c in conds):
            total = 0
            for _, c in conds:
                total = total + SymInt.of(c)
            if core.CTX.entailed(total == 1):
                return WhereIdx(conds, cond.shape)
            return _np.where(_concbool(cond))
        return tuple(_c(x) for x in _np.where(cond.astype(bool)))
    if _isym(cond):
        raise Unsupported("where on a symbolic array")
    return _np.where(cond)


def _concbool(cond):
    if isinstance(cond, _np.ndarray) and cond.dtype == object:
        out = _np.zeros(cond.shape, dtype=bool)
        for pos in _np.ndindex(*cond.shape):
            out[pos] = bool(_np.ndarray.__getitem__(cond, pos))
        return out
    return cond


def nonzero(cond):
    return where(cond)


def argwhere(cond):
    w = where(cond)
    if isinstance(w, WhereIdx):
        return _np.array([[x[0] for x in w]], dtype=object).view(CArr)
    return _np.argwhere(_concbool(cond))


def array_equal(a, b, **k):
    if _isym(a) or _isym(b):
        raise Unsupported("array_equal")
    return _np.array_equal(a, b, **k)


_GUARDED = {}


def _guard(name, fn):
    def wrapped(*args, **kw):
        for a in list(args) + list(kw.values()):
            if _isym(a) or is_sym(a) or (isinstance(a, (list, tuple)) and (
                    _has_sym(a) or any(_isym(e) for e in a))):
                raise Unsupported(f"numpy.{name} on symbolic values")
        return _c(fn(*args, **kw))

    wrapped.__name__ = name
    return wrapped


class Shim(types.ModuleType):
    def __getattr__(self, name):
        if name in ("datetime64", "timedelta64"):
            from . import times

            return times.DT64 if name == "datetime64" else times.TD64
        v = getattr(_np, name)
        if isinstance(v, type) or not callable(v):
            return v
        if name not in _GUARDED:
            _GUARDED[name] = _guard(name, v)
        return _GUARDED[name]

    def __dir__(self):
        return [n for n in dir(_np) if not n.startswith("_")]


numpy = Shim("numpy")
for _n, _v in list(globals().items()):
    if not _n.startswith("_") and (callable(_v)) and getattr(_v, "__module__", None) == __name__ \
            and _n not in ("Shim", "CArr", "WhereIdx"):
        setattr(numpy, _n, _v)
numpy.ndarray = SymArray


class _NpIntMeta(type):
    def __call__(cls, *a, **k):
        return _np.int64(*a, **k) if not (a and isinstance(a[0], SymInt)) else core.SymNpInt(a[0].p)

    def __instancecheck__(cls, x):
        return isinstance(x, core.SymNpInt) or isinstance(x, cls.real)

    def __subclasscheck__(cls, x):
        return x is core.SymNpInt or issubclass(x, cls.real)

    def __eq__(cls, o):
        return o is cls or o is cls.real

    def __hash__(cls):
        return hash(cls.real)


for _name in ("integer", "signedinteger", "int64", "int_"):
    _real = getattr(_np, _name)
    setattr(numpy, _name, _NpIntMeta(_name, (), {"real": _real, **({"dtype": _np.dtype(_real)} if _name.startswith("int") and _name != "integer" else {})}))
numpy.true_divide = divide
numpy.asanyarray = asarray
