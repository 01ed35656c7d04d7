"""Symbolic n-dimensional arrays: symbolic shapes, views, a write log."""
import numpy as _np
import z3

from . import core
from .core import And, Or, SymBool, SymInt, SymReal, Unsupported, is_sym, ite, zb


def _iszero(x):
    return not isinstance(x, SymInt) and x == 0


def _prod(xs):
    r = 1
    for x in xs:
        r = r * x
    return r


def _key(x):
    return x.key if isinstance(x, SymInt) else ("c", int(x))


def same(a, b):
    """a == b without forking, simplified by what the path knows."""
    r = a == b
    if isinstance(r, SymBool):
        k = core.CTX.known_value(r)
        return r if k is None else k
    return bool(r)


def _known(r):
    if isinstance(r, SymBool):
        k = core.CTX.known_value(r)
        return r if k is None else k
    return bool(r)


def _prod_eq(a, b):
    a, b = list(a), list(b)
    for x in list(a):
        for y in b:
            if _key(x) == _key(y) or same(x, y) is True:
                a.remove(x)
                b.remove(y)
                break
    a = [x for x in a if not (not isinstance(x, SymInt) and x == 1)]
    b = [x for x in b if not (not isinstance(x, SymInt) and x == 1)]
    if not a and not b:
        return True
    if not a:
        return And(*[same(x, 1) for x in b])
    if not b:
        return And(*[same(x, 1) for x in a])
    return same(_prod(a), _prod(b))


_EXACT = {
    ("float32", "float64"),
    ("int32", "int64"),
    ("int32", "float64"),
    ("int64", "float64"),
    ("bool", "int64"),
    ("bool", "float64"),
    ("bool", "int32"),
    ("int16", "int32"),
    ("int16", "int64"),
    ("int16", "float64"),
    ("int16", "float32"),
}
_CASTS = {}


def cast(val, d1, d2):
    """Value of dtype d1 stored as dtype d2 (uninterpreted where lossy)."""
    if d1 == d2 or (str(d1), str(d2)) in _EXACT:
        return val
    if d1 == object or d2 == object:
        return val
    f = uf(f"cast_{d1}_{d2}", [z3.RealSort()])
    return f(val)


def reinterpret(val, d1, d2):
    f = uf(f"reinterpret_{d1}_{d2}", [z3.RealSort()])
    return f(val)


def uf(name, sorts):
    key = (name, len(sorts))
    if key not in _CASTS:
        _CASTS[key] = z3.Function(name, *sorts, z3.RealSort())
    return _CASTS[key]


class Mem:
    _n = 0

    def __init__(self, shape, dtype, base, order=None, name=None):
        self.shape = tuple(shape)
        self.dtype = _np.dtype(dtype)
        self.base = base
        self.order = list(order) if order is not None else list(range(len(self.shape)))
        self.writes = []
        Mem._n += 1
        self.id = Mem._n
        self.name = name or f"mem{self.id}"
        self.writeable = True
        self.on_write = None

    def read(self, idx, version=None):
        n = len(self.writes) if version is None else version
        ctx = core.CTX
        ckey = (self.id, n, tuple(_key(i) for i in idx))
        hit = ctx.read_cache.get(ckey)
        if hit is not None:
            return hit
        acc = []
        out = None
        for i in range(n - 1, -1, -1):
            guard, val = self.writes[i]
            g = guard(idx)
            if isinstance(g, SymBool):
                k = ctx.known_value(g)
                if k is not None:
                    g = k
                else:
                    g = ctx.prune(g)
            if not isinstance(g, SymBool):
                if g:
                    out = val(idx)
                    break
                continue
            acc.append((g.z, val(idx)))
        if out is None:
            out = self.base(idx)
        for g, v in reversed(acc):
            out = z3.If(g, v, out)
        ctx.read_cache[ckey] = out
        return out

    def faster(self, axis):
        """shapes of the axes that vary faster than axis in memory"""
        p = self.order.index(axis)
        return [self.shape[a] for a in self.order[p + 1 :]]


def fresh_garbage(shape, dtype, order=None):
    Mem._n += 1
    name = f"garbage{Mem._n}"
    return Mem(shape, dtype, _uf_base(name, len(shape)), order, name)


def _uf_base(name, nd):
    if nd == 0:
        c = z3.Real(name)
        return lambda idx: c
    f = uf(name, [z3.IntSort()] * nd)
    return lambda idx: f(*[i.z if isinstance(i, SymInt) else z3.IntVal(int(i)) for i in idx])


class Flags:
    def __init__(self, arr):
        self._a = arr

    def __getitem__(self, k):
        k = k.upper()
        if k in ("C_CONTIGUOUS", "C", "CONTIGUOUS"):
            return _tobool(self._a.contig("C"))
        if k in ("F_CONTIGUOUS", "F", "FORTRAN"):
            return _tobool(self._a.contig("F"))
        if k in ("WRITEABLE", "W"):
            return self._a._writeable
        if k == "FORC":
            return _tobool(Or(self._a.contig("C"), self._a.contig("F")))
        if k == "OWNDATA":
            return self._a._owns
        if k in ("ALIGNED", "BEHAVED"):
            return True
        raise KeyError("Unknown flag")

    c_contiguous = property(lambda s: s["C"])
    f_contiguous = property(lambda s: s["F"])
    contiguous = property(lambda s: s["C"])
    forc = property(lambda s: s["FORC"])
    owndata = property(lambda s: s["OWNDATA"])

    @property
    def writeable(self):
        return self._a._writeable

    @writeable.setter
    def writeable(self, v):
        self._a._writeable = bool(v)


def _tobool(b):
    return bool(b) if isinstance(b, SymBool) else b


class NDMeta(type):
    def __instancecheck__(cls, obj):
        return type.__instancecheck__(cls, obj) or (
            cls is SymArray and isinstance(obj, _np.ndarray)
        )

    def __subclasscheck__(cls, sub):
        return type.__subclasscheck__(cls, sub) or (
            cls is SymArray and isinstance(sub, type) and issubclass(sub, _np.ndarray)
        )


class SymArray(metaclass=NDMeta):
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, mem, offs=None, dmap=None, shape=None, owns=False):
        self.mem = mem
        n = len(mem.shape)
        self._offs = tuple(offs) if offs is not None else (0,) * n
        # per memory axis: (view dimension or None, step)
        self._dmap = tuple(dmap) if dmap is not None else tuple((i, 1) for i in range(n))
        self.shape = tuple(shape) if shape is not None else mem.shape
        self._writeable = mem.writeable
        self._owns = owns

    def plain(self):
        """the same elements as a base-class array (a subclass stands for one of numpy's)"""
        if type(self) is SymArray:
            return self
        r = SymArray(self.mem, self._offs, self._dmap, self.shape, self._owns)
        r._writeable = self._writeable
        return r

    # -- attributes
    @property
    def dtype(self):
        return self.mem.dtype

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        return _prod(self.shape)

    @property
    def itemsize(self):
        return self.dtype.itemsize

    @property
    def nbytes(self):
        return self.size * self.itemsize

    @property
    def flags(self):
        return Flags(self)

    @property
    def T(self):
        return self.transpose()

    @property
    def base(self):
        return None if self._owns else SymArray(self.mem)

    @property
    def data(self):
        raise Unsupported("ndarray.data")

    @property
    def strides(self):
        out = []
        for d in range(self.ndim):
            m = self._axis_of(d)
            if m is None:
                out.append(0)
            else:
                out.append(self._dmap[m][1] * _prod(self.mem.faster(m)) * self.itemsize)
        return tuple(out)

    def setflags(self, write=None, align=None, uic=None):
        if write is not None:
            self._writeable = bool(write)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if hasattr(_np.ndarray, name):
            raise Unsupported(f"ndarray.{name}")
        raise AttributeError(f"'numpy.ndarray' object has no attribute '{name}'")

    def _axis_of(self, d):
        for m, (v, s) in enumerate(self._dmap):
            if v == d:
                return m
        return None

    def contig(self, order):
        dims = range(self.ndim)
        seq = list(reversed(dims)) if order == "C" else list(dims)
        conds = []
        expected = []
        for d in seq:
            L = self.shape[d]
            m = self._axis_of(d)
            if m is None or self._dmap[m][1] != 1:
                ok = False
            else:
                ok = _prod_eq(self.mem.faster(m), expected)
            conds.append(Or(ok, same(L, 1)))
            expected.append(L)
        full = And(*conds)
        empties = [e for e in (same(x, 0) for x in self.shape) if e is not False]
        return Or(full, *empties)

    # -- element access
    def mem_index(self, idx):
        out = []
        for off, (v, s) in zip(self._offs, self._dmap):
            out.append(off if v is None else off + s * idx[v])
        return tuple(out)

    def read(self, idx, version=None):
        return self.mem.read(self.mem_index(idx), version)

    def snapshot(self):
        """Function idx -> z3 term giving the present contents."""
        ver = len(self.mem.writes)
        me = self
        return lambda idx: me.mem.read(me.mem_index(idx), ver)

    # -- indexing
    def _resolve(self, index):
        if not isinstance(index, tuple):
            index = (index,)
        n_ell = sum(1 for e in index if e is Ellipsis)
        if n_ell > 1:
            raise IndexError("an index can only have a single ellipsis ('...')")
        n_real = sum(1 for e in index if e is not None and e is not Ellipsis)
        if n_real > self.ndim:
            raise IndexError(
                f"too many indices for array: array is {self.ndim}-dimensional, "
                f"but {n_real} were indexed"
            )
        fill = (slice(None),) * (self.ndim - n_real)
        if n_ell:
            p = [i for i, e in enumerate(index) if e is Ellipsis][0]
            index = index[:p] + fill + index[p + 1 :]
        else:
            index = index + fill
        offs, dmap = list(self._offs), list(self._dmap)
        shape = []
        d = 0
        for e in index:
            if e is None:
                shape.append(1)
                continue
            m = self._axis_of(d)
            L = self.shape[d]
            if isinstance(e, slice):
                start, n, step = norm_slice(e, L)
                if m is not None:
                    offs[m] = offs[m] + dmap[m][1] * start
                    dmap[m] = (("n", len(shape)), dmap[m][1] * step)
                shape.append(n)
            elif isinstance(e, (SymInt, int, _np.integer)) and not isinstance(e, bool):
                if not isinstance(e, SymInt):
                    e = int(e)
                if _tobool(e >= 0):
                    if _tobool(e >= L):
                        raise IndexError(f"index {e} is out of bounds for axis {d} with size {L}")
                    i = e
                else:
                    if _tobool(e < -L):
                        raise IndexError(f"index {e} is out of bounds for axis {d} with size {L}")
                    i = e + L
                if m is not None:
                    offs[m] = offs[m] + dmap[m][1] * i
                    dmap[m] = (None, 1)
            elif hasattr(e, "__index__") and not isinstance(e, (bool, SymArray, _np.ndarray)):
                return self._resolve(
                    tuple(x.__index__() if x is e else x for x in index)
                )
            elif isinstance(e, (str, float)):
                raise IndexError(
                    "only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) "
                    "and integer or boolean arrays are valid indices"
                )
            else:
                raise Unsupported(f"indexing with {type(e).__name__}")
            d += 1
        dmap = [
            (v[1], s) if isinstance(v, tuple) else (v, s)
            for v, s in dmap
        ]
        return SymArray(self.mem, offs, dmap, shape)

    def __getitem__(self, index):
        r = self._resolve(index)
        r._writeable = self._writeable
        full = index if isinstance(index, tuple) else (index,)
        if r.ndim == 0 and Ellipsis not in [
            e for e in full if e is Ellipsis
        ]:
            return SymReal(r.read(()))
        return r

    def __setitem__(self, index, value):
        if not self._writeable:
            raise ValueError("assignment destination is read-only")
        self._resolve(index).assign(value)

    def assign(self, value):
        tgt = self
        valfn = value_fn(value, tgt.shape, tgt.dtype)
        mem = tgt.mem
        offs, dmap, shape = tgt._offs, tgt._dmap, tgt.shape

        def vidx(midx):
            out = [0] * len(shape)
            for i, off, (v, s) in zip(midx, offs, dmap):
                if v is None:
                    continue
                if s == 1:
                    out[v] = i - off
                elif s == -1:
                    out[v] = off - i
                else:
                    out[v] = (i - off) // s
            return tuple(out)

        def guard(midx):
            cs = []
            for i, off, (v, s) in zip(midx, offs, dmap):
                if v is None:
                    cs.append(_known(i == off))
                else:
                    if s == 1:
                        t = i - off
                    elif s == -1:
                        t = off - i
                    else:
                        r = (i - off) if s > 0 else (off - i)
                        cs.append(_known(r % abs(s) == 0))
                        t = r // abs(s)
                    cs.append(_known(t >= 0))
                    cs.append(_known(t < shape[v]))
                if cs[-1] is False:
                    return False
            for d, L in enumerate(shape):
                if all(v != d for v, _ in dmap):
                    cs.append(_known(L > 0))
            return And(*cs)

        # every read is of an index inside the memory, so a write to all of it
        # hides everything earlier
        if all(
            v is not None and s == 1 and _iszero(off) and _key(shape[v]) == _key(L)
            for off, (v, s), L in zip(offs, dmap, mem.shape)
        ) and len(shape) == len(mem.shape):
            guard = lambda midx: True
        if mem.on_write is not None:
            mem.on_write(tgt)
        mem.writes.append((guard, lambda midx: valfn(vidx(midx))))

    # -- shape manipulation
    def transpose(self, *axes):
        if len(axes) == 1 and (axes[0] is None or isinstance(axes[0], (tuple, list))):
            axes = axes[0]
        if axes is None or len(axes) == 0:
            axes = tuple(reversed(range(self.ndim)))
        axes = [int(a) for a in axes]
        if len(axes) != self.ndim:
            raise ValueError("axes don't match array")
        axes = [a + self.ndim if a < 0 else a for a in axes]
        if sorted(axes) != list(range(self.ndim)):
            raise ValueError("repeated axis in transpose")
        inv = {a: i for i, a in enumerate(axes)}
        dmap = [(None if v is None else inv[v], s) for v, s in self._dmap]
        r = SymArray(self.mem, self._offs, dmap, [self.shape[a] for a in axes])
        r._writeable = self._writeable
        return r

    def swapaxes(self, a, b):
        ax = list(range(self.ndim))
        ax[a], ax[b] = ax[b], ax[a]
        return self.transpose(ax)

    def copy(self, order="C"):
        return self._materialise(order)

    def _korder(self):
        """view dims from slowest to fastest in memory (numpy keep-order)"""
        mapped = [
            (self.mem.order.index(m), v) for m, (v, s) in enumerate(self._dmap) if v is not None
        ]
        dims = [v for _, v in sorted(mapped)]
        rest = [d for d in range(self.ndim) if d not in dims]
        return rest + dims

    def _materialise(self, order="C", dtype=None):
        snap = self.snapshot()
        dtype = self.dtype if dtype is None else _np.dtype(dtype)
        src = self.dtype
        if order in ("K", "A"):
            perm = self._korder()
        elif order == "F":
            perm = list(reversed(range(self.ndim)))
        else:
            perm = list(range(self.ndim))
        return SymArray(
            Mem(self.shape, dtype, lambda idx: cast(snap(idx), src, dtype), perm), owns=True
        )

    def __copy__(self):
        return self._materialise("C")

    def __deepcopy__(self, memo):
        return self._materialise("K")

    def astype(self, dtype, order="K", casting="unsafe", subok=True, copy=True):
        dtype = _np.dtype(dtype)
        if not copy and dtype == self.dtype:
            return self
        return self._materialise(order, dtype)

    def view(self, *a, **k):
        if a or k:
            raise Unsupported("ndarray.view(dtype)")
        return self[...]

    def fill(self, v):
        self[...] = v

    def item(self, *a):
        if a or self.ndim:
            raise Unsupported("ndarray.item")
        return SymReal(self.read(()))

    def ravel(self, order="C"):
        return self.reshape(-1)

    def flatten(self, order="C"):
        return self.reshape(-1).copy()

    def squeeze(self, axis=None):
        if axis is None:
            axes = [d for d in range(self.ndim) if _tobool(same(self.shape[d], 1))]
        else:
            axes = [axis] if not isinstance(axis, tuple) else list(axis)
        axes = [a % self.ndim for a in axes]
        return self[tuple(0 if d in axes else slice(None) for d in range(self.ndim))]

    def reshape(self, *shape, order="C"):
        if order != "C":
            raise Unsupported("reshape order")
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        shape = list(shape)
        if any(not isinstance(s, SymInt) and s == -1 for s in shape):
            p = [i for i, s in enumerate(shape) if not isinstance(s, SymInt) and s == -1][0]
            rest = _prod(shape[:p] + shape[p + 1 :])
            shape[p] = self.size // rest
        if len(shape) == self.ndim and all(same(a, b) is True for a, b in zip(shape, self.shape)):
            return self[...]
        if not _tobool(same(_prod(shape), self.size)):
            raise ValueError(f"cannot reshape array of size {self.size} into shape {tuple(shape)}")
        # only unit dimensions inserted or removed: an exact view
        a = [(i, s) for i, s in enumerate(self.shape) if not (not is_sym(s) and s == 1)]
        b = [(i, s) for i, s in enumerate(shape) if not (not is_sym(s) and s == 1)]
        if len(a) == len(b) and all(same(x[1], y[1]) is True for x, y in zip(a, b)):
            v = self[tuple(slice(None) if any(i == j for j, _ in a) else 0 for i in range(self.ndim))] \
                if self.ndim else self
            if not isinstance(v, SymArray):
                raise Unsupported("reshape of one element")
            return v[tuple(slice(None) if any(i == j for j, _ in b) else None for i in range(len(shape)))]
        if len(shape) == 1:
            # flat read-only picture through div/mod on concrete inner sizes
            pass
        newshape = [core.CTX.concretize(s) if isinstance(s, SymInt) else int(s) for s in shape]
        oldshape = [core.CTX.concretize(s) if isinstance(s, SymInt) else int(s) for s in self.shape]
        snap = self.snapshot()

        def base(idx):
            flat = 0
            for i, n in zip(idx, newshape):
                flat = flat * n + i
            out = []
            for n in reversed(oldshape):
                out.append(flat % n if n else 0)
                flat = flat // n if n else 0
            return snap(tuple(reversed(out)))

        m = Mem(newshape, self.dtype, base)
        m.writeable = False
        return SymArray(m)

    # -- arithmetic
    def _bin(self, o, f, dtype=None, rev=False):
        if isinstance(o, SymArray):
            shape = broadcast_shapes(self.shape, o.shape)
            dt = _np.result_type(self.dtype, o.dtype)
        else:
            shape = self.shape
            if isinstance(o, _np.ndarray):
                shape = broadcast_shapes(self.shape, o.shape)
                dt = _np.result_type(self.dtype, o.dtype)
            elif isinstance(o, (SymReal, float)):
                dt = self.dtype if self.dtype.kind == "f" else _np.dtype("float64")
            else:
                dt = self.dtype
        dt = _np.dtype(dtype) if dtype is not None else dt
        a = value_fn(self, shape, dt)
        b = value_fn(o, shape, dt)
        if rev:
            a, b = b, a
        return SymArray(Mem(shape, dt, lambda idx: f(a(idx), b(idx)), self._korder_for(shape)), owns=True)

    def _korder_for(self, shape):
        if len(shape) == self.ndim:
            return self._korder()
        return None

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, rev=True)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        dt = None if self.dtype.kind == "f" else "float64"
        return self._bin(o, lambda a, b: a / b, dtype=dt)

    def __rtruediv__(self, o):
        dt = None if self.dtype.kind == "f" else "float64"
        return self._bin(o, lambda a, b: a / b, rev=True, dtype=dt)

    def __neg__(self):
        snap = self.snapshot()
        return SymArray(Mem(self.shape, self.dtype, lambda idx: -snap(idx), self._korder()), owns=True)

    def __pos__(self):
        return self.copy("K")

    def _inplace(self, r):
        if not self._writeable:
            raise ValueError("output array is read-only")
        if r.dtype != self.dtype and not _np.can_cast(r.dtype, self.dtype, "same_kind"):
            raise TypeError("Cannot cast ufunc output")
        self.assign(r)
        return self

    def __iadd__(self, o):
        return self._inplace(self + o)

    def __isub__(self, o):
        return self._inplace(self - o)

    def __imul__(self, o):
        return self._inplace(self * o)

    def __itruediv__(self, o):
        return self._inplace(self / o)

    def __eq__(self, o):
        if o is None:
            return False
        raise Unsupported("elementwise comparison")

    def __ne__(self, o):
        if o is None:
            return True
        raise Unsupported("elementwise comparison")

    def __lt__(self, o):
        raise Unsupported("elementwise comparison")

    __le__ = __gt__ = __ge__ = __lt__
    __hash__ = None

    def __bool__(self):
        raise Unsupported("truth value of an array")

    def __len__(self):
        if self.ndim == 0:
            raise TypeError("len() of unsized object")
        n = self.shape[0]
        return core.CTX.concretize(n) if isinstance(n, SymInt) else int(n)

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        i = 0
        while _tobool(i < self.shape[0]):
            yield self[i]
            i += 1

    def __array__(self, *a, **k):
        raise Unsupported("conversion to a real numpy array")

    def __repr__(self):
        return f"SymArray(shape={self.shape}, dtype={self.dtype}, {self.mem.name})"

    def __float__(self):
        raise Unsupported("float(array)")


# numpy.ndarray used as a class in annotations and isinstance checks
SymArray.__name__ = "ndarray"


def norm_slice(s, L):
    """(start, length, step) of slice s on an axis of length L (numpy rules)."""
    step = s.step
    if step is None:
        step = 1
    if isinstance(step, SymInt):
        step = core.CTX.concretize(step)
    step = int(step)
    if step == 0:
        raise ValueError("slice step cannot be zero")
    if step > 0:
        start = 0 if s.start is None else _clamp(s.start, L, 0, L)
        stop = L if s.stop is None else _clamp(s.stop, L, 0, L)
        if not _tobool(stop > start):
            return start, 0, step
        n = stop - start
        if step > 1:
            n = (n + step - 1) // step
        return start, n, step
    start = L - 1 if s.start is None else _clamp(s.start, L, -1, L - 1)
    stop = -1 if s.stop is None else _clamp(s.stop, L, -1, L - 1)
    if not _tobool(start > stop):
        return start, 0, step
    n = start - stop
    if step < -1:
        n = (n - step - 1) // (-step)
    return start, n, step


def _clamp(v, L, lo, hi):
    if isinstance(v, (float, str)):
        raise TypeError("slice indices must be integers or None or have an __index__ method")
    if not isinstance(v, SymInt):
        v = v.__index__()
    if _tobool(v < 0):
        v = v + L
        if _tobool(v < lo):
            return lo
        return v
    if _tobool(v > hi):
        return hi
    return v


def broadcast_shapes(a, b):
    n = max(len(a), len(b))
    a = (1,) * (n - len(a)) + tuple(a)
    b = (1,) * (n - len(b)) + tuple(b)
    out = []
    for x, y in zip(a, b):
        if _tobool(same(x, y)):
            out.append(x)
        elif _tobool(same(x, 1)):
            out.append(y)
        elif _tobool(same(y, 1)):
            out.append(x)
        else:
            raise ValueError("operands could not be broadcast together")
    return tuple(out)


def value_fn(value, shape, dtype):
    """idx (over shape) -> z3 term of value broadcast to shape, as dtype."""
    if isinstance(value, SymArray) and not isinstance(value, _np.ndarray):
        vs = value.shape
        extra = len(vs) - len(shape)
        if extra > 0:
            for s in vs[:extra]:
                if not _tobool(same(s, 1)):
                    raise ValueError(
                        f"could not broadcast input array from shape {vs} into shape {shape}"
                    )
        pick = []
        for k in range(1, min(len(vs), len(shape)) + 1):
            s, t = vs[-k], shape[-k]
            if not _tobool(same(s, t)):
                if not _tobool(same(s, 1)):
                    raise ValueError(
                        f"could not broadcast input array from shape {vs} into shape {shape}"
                    )
                pick.append(False)
            else:
                pick.append(True)
        pick = list(reversed(pick))
        snap = value.snapshot()
        src = value.dtype
        nd, nv = len(shape), len(vs)

        def fn(idx):
            tail = idx[nd - len(pick) :] if pick else ()
            vi = [i if p else 0 for i, p in zip(tail, pick)]
            vi = [0] * (nv - len(vi)) + vi
            return cast(snap(tuple(vi)), src, dtype)

        return fn
    if isinstance(value, _np.ndarray):
        if value.ndim == 0:
            value = value.item()
        elif value.dtype == object or value.size <= 64:
            return value_fn(from_concrete(value), shape, dtype)
        else:
            raise Unsupported("large concrete array")
    if isinstance(value, (list, tuple)):
        return value_fn(from_concrete(_np.array(value, dtype=object)), shape, dtype)
    if hasattr(value, "__array_function__") and hasattr(value, "inner"):
        raise TypeError("Implicit conversion to a NumPy array is not allowed")
    r = SymReal.of(value)
    if r is None:
        raise Unsupported(f"assigning a {type(value).__name__} to an array")
    z = r.z
    return lambda idx: z


def from_concrete(arr, dtype=None):
    dt = _np.dtype(dtype) if dtype is not None else (
        arr.dtype if arr.dtype != object else _np.dtype("float64")
    )
    vals = {i: SymReal.of(v).z for i, v in _np.ndenumerate(arr)}

    def base(idx):
        if all(not isinstance(i, SymInt) for i in idx):
            return vals[tuple(int(i) for i in idx)]
        out = None
        for i, v in vals.items():
            g = And(*[a == b for a, b in zip(idx, i)])
            if g is False:
                continue
            out = v if out is None else z3.If(zb(g), v, out)
        return out

    return SymArray(Mem(arr.shape, dt, base), owns=True)


def new_array(name, shape, dtype="float64", order="C"):
    nd = len(shape)
    perm = list(range(nd)) if order == "C" else (
        list(reversed(range(nd))) if order == "F" else list(order)
    )
    return SymArray(Mem(shape, dtype, _uf_base("data_" + name, nd), perm, name), owns=True)
