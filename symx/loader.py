"""Imports a clone of fv3gfs.util from the working tree for symbolic execution.

Every module of the package is compiled from /repo's present source and
executed with (a) builtins whose int/len/range/isinstance accept symbolic
values and (b) stand-ins for numpy and the other libraries it imports.
"""
import ast
import builtins
import hashlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import types

import numpy as _np

from . import core, npshim, symstr
from .core import SymBool, SymInt, SymReal, Unsupported
from .sarray import SymArray
from .symstr import StrShim, SymStr

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "fv3gfs"
_CODE = {}
STUBS = {}
SOURCES = {}


class _IntMeta(type):
    def __call__(cls, *args, **kw):
        if args and len(args) == 1 and not kw:
            x = args[0]
            if isinstance(x, SymInt):
                return SymInt(x.p) if isinstance(x, core.SymNpInt) else x
            if isinstance(x, SymBool):
                return SymInt.of(x)
            if isinstance(x, SymArray) and type(x) is SymArray:
                raise Unsupported("int(array)")
            if hasattr(x, "__symint__"):
                return x.__symint__()
            if isinstance(x, _np.ndarray) and x.dtype == object and x.size == 1:
                return cls(x.reshape(-1)[0])
        return int(*args, **kw)

    def __instancecheck__(cls, x):
        return isinstance(x, int) or (isinstance(x, SymInt) and not isinstance(x, core.SymNpInt))

    def __subclasscheck__(cls, x):
        return x is SymInt or issubclass(x, int)

    def __eq__(cls, o):
        return o is cls or o is int

    def __hash__(cls):
        return hash(int)


class IntShim(metaclass=_IntMeta):
    from_bytes = int.from_bytes
    dtype = _np.dtype(int)


class _FloatMeta(type):
    def __call__(cls, *args, **kw):
        if args:
            x = args[0]
            if isinstance(x, SymReal):
                return x
            if isinstance(x, SymInt):
                return SymReal.of(x)
            if hasattr(x, "__symfloat__"):
                return x.__symfloat__()
        return float(*args, **kw)

    def __instancecheck__(cls, x):
        return isinstance(x, (float, SymReal))

    def __subclasscheck__(cls, x):
        return x is SymReal or issubclass(x, float)

    def __eq__(cls, o):
        return o is cls or o is float

    def __hash__(cls):
        return hash(float)


class FloatShim(metaclass=_FloatMeta):
    fromhex = float.fromhex
    hex = float.hex
    is_integer = float.is_integer
    as_integer_ratio = float.as_integer_ratio
    dtype = _np.dtype(float)


class _BoolMeta(type):
    def __call__(cls, *args):
        if args and isinstance(args[0], SymBool):
            return args[0]
        return bool(*args)

    def __instancecheck__(cls, x):
        return isinstance(x, (bool, SymBool))

    def __subclasscheck__(cls, x):
        return x is SymBool or issubclass(x, bool)

    def __eq__(cls, o):
        return o is cls or o is bool

    def __hash__(cls):
        return hash(bool)


class BoolShim(metaclass=_BoolMeta):
    dtype = _np.dtype(bool)


class symrange:
    def __init__(self, a, b, step):
        self.start, self.stop, self.step = a, b, step

    def __iter__(self):
        i = self.start
        if isinstance(self.step, SymInt):
            self.step = core.CTX.concretize(self.step)
        n = 0
        while bool(i < self.stop) if self.step > 0 else bool(i > self.stop):
            yield i
            i = i + self.step
            n += 1
            if n > 2000:
                raise Unsupported("unbounded symbolic range")

    def __len__(self):
        return core.CTX.concretize(self._n())

    def _n(self):
        d = self.stop - self.start
        n = d // self.step if self.step == 1 else -((-d) // self.step)
        return n if bool(n > 0) else 0

    def __contains__(self, x):
        if self.step == 1:
            return bool(core.And(x >= self.start, x < self.stop))
        return any(bool(x == v) for v in self)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return list(self)[i]
        return self.start + i * self.step

    def __reversed__(self):
        return reversed(list(self))


def sym_range(*args):
    if any(isinstance(a, SymInt) for a in args):
        if len(args) == 1:
            return symrange(0, args[0], 1)
        if len(args) == 2:
            return symrange(args[0], args[1], 1)
        return symrange(*args)
    return range(*args)


def sym_len(x):
    if type(x) is SymArray:
        if x.ndim == 0:
            raise TypeError("len() of unsized object")
        return x.shape[0]
    if isinstance(x, symrange):
        return x._n()
    if hasattr(x, "__symlen__"):
        return x.__symlen__()
    return len(x)


_REAL_TYPES = {}


def _mapcls(c):
    if isinstance(c, tuple):
        return tuple(_mapcls(x) for x in c)
    return c


def sym_isinstance(obj, cls):
    return isinstance(obj, _mapcls(cls))


def sym_type(*args):
    if len(args) == 1:
        x = args[0]
        if isinstance(x, core.SymNpInt):
            return _np.int64
        if isinstance(x, SymInt):
            return int
        if isinstance(x, SymReal):
            return float
        if isinstance(x, SymBool):
            return bool
        if isinstance(x, SymStr):
            return str
        return type(x)
    return type(*args)


class _TypeMeta(type):
    def __call__(cls, *args, **kw):
        return sym_type(*args, **kw)

    def __instancecheck__(cls, x):
        return isinstance(x, type)

    def __subclasscheck__(cls, x):
        return issubclass(x, type)


def _range_proxy():
    class RangeMeta(type):
        def __call__(cls, *a):
            return sym_range(*a)

        def __instancecheck__(cls, x):
            return isinstance(x, (range, symrange))

    class RangeShim(metaclass=RangeMeta):
        pass

    return RangeShim


class StubModule(types.ModuleType):
    """A library the encoding does not model; touching it is Unsupported."""

    def __init__(self, name, attrs=None):
        super().__init__(name)
        self.__dict__["_attrs"] = attrs or {}
        for k, v in (attrs or {}).items():
            setattr(self, k, v)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported(f"{self.__name__}.{name}")


ABSENT = StubModule("absent")  # as a stub: a library that is not installed


def _import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        top = name.split(".")[0]
        if top == "numpy":
            return STUBS.get("numpy", npshim.numpy)
        if STUBS.get(top) is ABSENT:
            raise ModuleNotFoundError(f"No module named '{top}'", name=top)
        if name in STUBS or top in STUBS:
            return STUBS.get(name) if (name in STUBS and (fromlist or name == top)) else STUBS[top]
        if top in ("cupy", "gt4py"):
            raise ModuleNotFoundError(f"No module named '{top}'", name=top)
        if top == "math":
            return MATH
        if top == "importlib":
            builtins.__import__(name)
            return (IMPORTLIB_UTIL if name == "importlib.util" else IMPORTLIB) if fromlist or name == top else IMPORTLIB
    return builtins.__import__(name, globals, locals, fromlist, level)


def _import_module(name, package=None):
    if name.startswith("."):
        name = importlib.util.resolve_name(name, package)
    return _import(name, fromlist=("*",)) if "." in name else _import(name)


def _find_spec(name, package=None):
    s = STUBS.get(name.split(".")[0])
    if s is ABSENT or (s is None and name.split(".")[0] in ("cupy", "gt4py")):
        return None
    return importlib.util.find_spec(name, package) if s is None else importlib.machinery.ModuleSpec(name, None)


class _Importlib(types.ModuleType):
    """importlib as the package sees it: it finds the stand-ins too"""

    def __init__(self, real, attrs):
        super().__init__(real.__name__)
        self.__dict__.update(attrs, _real=real)

    def __getattr__(self, name):
        return getattr(self.__dict__["_real"], name)


class _Math(types.ModuleType):
    def __getattr__(self, name):
        import math

        v = getattr(math, name)
        if not callable(v):
            return v

        def f(*a, **k):
            if any(core.is_sym(x) for x in a):
                if name in ("floor", "ceil", "trunc") and isinstance(a[0], SymInt):
                    return a[0]
                raise Unsupported("math." + name)
            return v(*a, **k)

        return f


MATH = _Math("math")
IMPORTLIB_UTIL = _Importlib(importlib.util, {"find_spec": _find_spec})
IMPORTLIB = _Importlib(importlib, {"import_module": _import_module, "util": IMPORTLIB_UTIL})


def make_builtins():
    d = dict(vars(builtins))
    d["int"] = IntShim
    d["float"] = FloatShim
    d["bool"] = BoolShim
    d["str"] = StrShim
    d["__verif_join__"] = symstr.join
    d["range"] = _range_proxy()
    d["len"] = sym_len
    d["__import__"] = _import
    return d


class _Joins(ast.NodeTransformer):
    """"literal".join(x), a method of the built-in str, accepts symbolic text."""

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if (
            isinstance(f, ast.Attribute) and f.attr == "join" and isinstance(f.value, ast.Constant)
            and isinstance(f.value.value, str) and len(node.args) == 1 and not node.keywords
        ):
            name = ast.copy_location(ast.Name("__verif_join__", ast.Load()), f)
            return ast.copy_location(ast.Call(name, [f.value, node.args[0]], []), node)
        return node


class _Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != PKG and not fullname.startswith(PKG + "."):
            return None
        rel = fullname.replace(".", "/")
        p = os.path.join(REPO, rel)
        if os.path.isdir(p):
            init = os.path.join(p, "__init__.py")
            spec = importlib.machinery.ModuleSpec(
                fullname, self, origin=init if os.path.exists(init) else None, is_package=True
            )
            spec.submodule_search_locations = [p]
            return spec
        if os.path.exists(p + ".py"):
            return importlib.machinery.ModuleSpec(fullname, self, origin=p + ".py")
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        origin = module.__spec__.origin
        if origin is None:
            return
        module.__file__ = origin
        code = _CODE.get(origin)
        if code is None:
            with open(origin, "rb") as f:
                src = f.read()
            SOURCES[origin] = hashlib.sha256(src).hexdigest()
            tree = _Joins().visit(ast.parse(src, origin))
            code = compile(ast.fix_missing_locations(tree), origin, "exec", dont_inherit=True)
            _CODE[origin] = code
        module.__dict__["__builtins__"] = BUILTINS
        exec(code, module.__dict__)


BUILTINS = make_builtins()
_FINDER = _Finder()
_installed = False


def fresh():
    """Import the clone anew (fresh module state) and return fv3gfs.util."""
    global _installed
    if not _installed:
        sys.meta_path.insert(0, _FINDER)
        _installed = True
    for n in [n for n in sys.modules if n == PKG or n.startswith(PKG + ".")]:
        del sys.modules[n]
    import importlib

    return importlib.import_module("fv3gfs.util")


def called_functions(codes):
    out = set()
    for co in codes:
        fn = co.co_filename
        if fn.startswith(REPO + "/" + PKG):
            out.add(fn[len(REPO) + 1 :] + ":" + co.co_qualname)
    return out
