"""What a harness sees: one interface, a symbolic and a native backend."""
import itertools
import random

import numpy as _np

from .core_shared import PathAbort, Unsupported, Violated


class NativeCtx:
    """Concrete counterpart of core.Ctx."""

    symbolic = False

    def __init__(self, assignment=None, rng=None, K=3):
        self.assignment = assignment
        self.rng = rng
        self.K = K
        self.used = {}
        self.covers = set()
        self.n_checks = 0

    def int(self, name, lo, hi):
        if lo > hi:
            raise PathAbort("empty range")
        if self.assignment is not None:
            v = self.assignment.get(name, lo)
            if not lo <= v <= hi:
                raise PathAbort("model outside range")
        else:
            v = self.rng.randint(lo, min(hi, lo + self.K))
        self.used[name] = int(v)
        return int(v)

    def real(self, name, lo=None, hi=None):
        if self.assignment is not None and name in self.assignment:
            v = float(self.assignment[name])
        else:
            a = -7.0 if lo is None else lo
            b = a + 20.0 if hi is None else hi
            r = self.rng or random.Random(name)
            v = round(r.uniform(a, b), 3)
        self.used[name] = v
        return v

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        if self.assignment is not None:
            i = self.assignment.get(name, 0)
        else:
            i = self.rng.randrange(len(options))
        self.used[name] = i
        return options[i]

    def boolean(self, name):
        return self.choice(name, [False, True])

    def assume(self, c):
        if not c:
            raise PathAbort("assumption")

    def cover(self, label):
        self.covers.add(label)

    def check(self, cond, label, detail=None):
        self.n_checks += 1
        if not bool(cond):
            raise Violated(
                label, dict(self.used), str(detail() if callable(detail) else detail or "")
            )

    def check_forall(self, vars_, fn, label, detail=None):
        ranges = [range(int(lo), int(hi)) for _, lo, hi in vars_]
        total = 1
        for r in ranges:
            total *= len(r)
        it = itertools.product(*ranges)
        if total > 60000:
            rr = random.Random(1)
            it = (tuple(rr.choice(r) for r in ranges) for _ in range(60000))
        for idx in it:
            self.n_checks += 1
            try:
                ok = bool(fn(*idx))
            except PathAbort:
                continue
            if not ok:
                raise Violated(
                    label,
                    dict(self.used),
                    str({v[0]: i for v, i in zip(vars_, idx)})
                    + " "
                    + str(detail() if callable(detail) else detail or ""),
                )

    def fail(self, label, detail=None):
        self.check(False, label, detail)


def _dev(a):
    """the array a device array stands for"""
    return a.inner if hasattr(a, "inner") and hasattr(a, "__array_function__") else a


class NativeEnv:
    symbolic = False
    device = None  # makes arrays those of a device
    specials = True  # floating point arrays contain NaN and infinity

    def __init__(self, ctx, util):
        self.ctx = ctx
        self.util = util
        self.np = _np
        self._n = 0

    def __getattr__(self, name):
        if name in ("int", "real", "choice", "boolean", "assume", "check", "check_forall",
                    "cover", "fail"):
            return getattr(self.ctx, name)
        raise AttributeError(name)

    def npint(self, v):
        return _np.int64(v)

    And = staticmethod(lambda *xs: all(bool(x) for x in xs))
    Or = staticmethod(lambda *xs: any(bool(x) for x in xs))
    Not = staticmethod(lambda x: not x)
    Implies = staticmethod(lambda a, b: (not a) or bool(b))
    Iff = staticmethod(lambda a, b: bool(a) == bool(b))
    ite = staticmethod(lambda c, a, b: a if c else b)

    def array(self, name, shape, dtype="float64", order="C"):
        shape = tuple(int(s) for s in shape)
        dt = _np.dtype(dtype)
        n = 1
        for s in shape:
            n *= s
        self._n += 1
        # distinct values which no narrower type can hold
        if dt.kind == "f" and dt.itemsize == 8:
            base = self._n * 100003.0 + 0.1
        elif dt.kind == "f" and dt.itemsize == 4:
            base = self._n * 8209 + 0.125
        elif dt.kind == "i" and dt.itemsize == 4:
            base = self._n * 8209 + (1 << 29) + 1
        elif dt.kind in "iu" and dt.itemsize == 8:
            base = self._n * 100003 + (1 << 57) + 1
        else:
            base = self._n
        a = (_np.arange(n) + base).astype(dt).reshape(shape)
        if dt.kind == "f" and n > 4 and self.specials:
            # one element each: lost by whatever treats these values specially
            flat = a.reshape(-1)
            for k, v in enumerate((_np.nan, _np.inf)):
                flat[(self._n * 5 + k * 3) % n] = v
        if order == "F":
            a = _np.asfortranarray(a)
        elif order != "C":
            perm = list(order)
            inv = _np.argsort(perm)
            a = _np.ascontiguousarray(a.transpose(perm)).transpose(inv)
        return a if self.device is None else self.device(a)

    def snapshot(self, arr):
        c = _np.array(_dev(arr), copy=True)
        return lambda *idx: c[tuple(int(i) for i in idx)]

    def value(self, arr, *idx):
        return _dev(arr)[tuple(int(i) for i in idx)]

    @staticmethod
    def text(codes):
        """A string of the given code points (integers or symbolic ones)."""
        return "".join(chr(int(c)) for c in codes)

    @staticmethod
    def shares(a, b):
        a, b = _dev(a), _dev(b)
        return a.size > 0 and b.size > 0 and bool(_np.may_share_memory(a, b))

    @staticmethod
    def same(a, b):
        a, b = _dev(a), _dev(b)
        if isinstance(a, (float, _np.floating)) and isinstance(b, (float, _np.floating)):
            if _np.isnan(a) and _np.isnan(b):
                return True
        return bool(a == b)

    @staticmethod
    def close(a, b):
        return bool(abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b)))

    def world(self, *a, **k):
        from .world import World

        return World(*a, **k)

    def concretize(self, x):
        return int(x)


class SymEnv:
    symbolic = True
    device = None

    def __init__(self, ctx, util):
        from . import core, npshim

        self.ctx = ctx
        self.util = util
        self.np = npshim.numpy
        self.core = core
        for n in ("And", "Or", "Not", "Implies", "Iff", "ite"):
            setattr(self, n, getattr(core, n))

    def __getattr__(self, name):
        if name in ("int", "real", "choice", "boolean", "assume", "check", "check_forall",
                    "cover", "fail"):
            return getattr(self.ctx, name)
        raise AttributeError(name)

    def array(self, name, shape, dtype="float64", order="C"):
        from . import sarray

        a = sarray.new_array(name, tuple(shape), dtype, order)
        return a if self.device is None else self.device(a)

    def npint(self, v):
        return self.core.SymNpInt(v.p) if isinstance(v, self.core.SymInt) else _np.int64(v)

    def snapshot(self, arr):
        snap = _dev(arr).snapshot()
        return lambda *idx: self.core.SymReal(snap(tuple(idx)))

    def value(self, arr, *idx):
        return self.core.SymReal(_dev(arr).read(tuple(idx)))

    def text(self, codes):
        from .symstr import SymStr

        return SymStr.make(codes)

    def shares(self, a, b):
        return _dev(a).mem is _dev(b).mem

    def same(self, a, b):
        SymReal = self.core.SymReal
        a, b = [SymReal(x.inner.read(())) if _dev(x) is not x else x for x in (a, b)]
        if isinstance(a, SymReal) or isinstance(b, SymReal):
            za, zb_ = SymReal.of(a).z, SymReal.of(b).z
            return self.core.wrapb(za == zb_)
        return a == b

    def close(self, a, b):
        return self.same(a, b)

    def world(self, *a, **k):
        from .world import World

        return World(*a, **k)

    def concretize(self, x):
        return self.core.CTX.concretize(x)
