"""Stand-ins for the libraries that store data: a file system (fsspec) and
labelled arrays with netCDF files (xarray).

They keep what they are given, and reproduce what matters to callers: files are
truncated on opening for writing and unreadable once closed, data read from a
file is fetched when its values are first used, views share memory, variables
named after one of their dimensions come back as coordinates, and times (units
"... since ...") and time differences (units such as "days") are decoded unless
asked not to.
"""
import copy
import math
import re

import numpy as _np

from .core_shared import Unsupported
from .loader import StubModule

MODE = re.compile("[rwa]b?")


def is_array(x):
    return (hasattr(x, "mem") and hasattr(x, "_dmap")) or isinstance(x, _np.ndarray)


def copied(x):
    if hasattr(x, "mem") and hasattr(x, "_dmap"):
        return x._materialise("C")
    return _np.array(x, copy=True) if isinstance(x, _np.ndarray) else copy.copy(x)


def shape_of(x):
    return tuple(x.shape) if isinstance(x, Opaque) or is_array(x) else ()


class Disk:
    def __init__(self):
        self.files = {}

    # -- fsspec
    def module(self):
        return StubModule("fsspec", {
            "get_fs_token_paths": lambda path, *a, **k: (self, "token", [path]),
            "filesystem": lambda *a, **k: self,
            "open": lambda path, mode="rb", **k: self.open(path, mode),
            "AbstractFileSystem": Disk,
            "core": StubModule("fsspec.core", {"url_to_fs": lambda p, **k: (self, p), "get_fs_token_paths": lambda path, *a, **k: (self, "token", [path])}),
        })

    def isfile(self, path):
        return path in self.files

    def exists(self, path, **k):
        return path in self.files or self.isdir(path)

    def isdir(self, path):
        return any(p.startswith(path.rstrip("/") + "/") for p in self.files)

    def open(self, path, mode="rb", **k):
        if not MODE.fullmatch(mode):
            raise Unsupported("open mode " + mode)
        if mode[0] == "r" and path not in self.files:
            raise FileNotFoundError(path)
        if mode[0] == "a":
            raise Unsupported("open mode " + mode)
        if mode[0] == "w":
            self.files[path] = None
        return File(self, path, mode)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("file system " + name)


class File:
    def __init__(self, disk, path, mode):
        self.disk, self.path, self.mode, self.closed = disk, path, mode, False
        self._lines = None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self.closed = True

    def need_open(self, how):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        if self.mode[0] != how:
            raise OSError("not readable" if how == "r" else "not writable")

    def text(self):
        self.need_open("r")
        c = self.disk.files[self.path]
        if not isinstance(c, list) or "b" in self.mode:
            raise Unsupported("text of a data file")
        if self._lines is None:
            self._lines = list(c)
        return self._lines

    def readline(self):
        t = self.text()
        return t.pop(0) if t else ""

    def readlines(self):
        t = self.text()
        self._lines = []
        return t

    def read(self):
        out = ""
        for x in self.readlines():
            out = out + x
        return out

    def __iter__(self):
        while self.text():
            yield self.text().pop(0)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("file " + name)


class DataArray:
    def __init__(self, data=None, coords=None, dims=None, attrs=None, name=None):
        if coords is not None:
            raise Unsupported("coordinates")
        if data is None:
            data = float("nan")
        if isinstance(data, DataArray):
            dims = data.dims if dims is None else dims
            attrs = data.attrs if attrs is None else attrs
            data = data.values
        n = len(shape_of(data))
        if dims is None:
            dims = tuple(f"dim_{k}" for k in range(n))
        if isinstance(dims, str):
            dims = (dims,)
        if len(dims) != n:
            raise ValueError("different number of dimensions on data and dims")
        self._set(data, tuple(dims), dict(attrs or {}), name)

    def _set(self, data, dims, attrs, name=None, source=None):
        self._data, self.dims, self.attrs, self.name = data, dims, attrs, name
        self._source, self._coord = source, False

    @classmethod
    def raw(cls, *a, **k):
        self = cls.__new__(cls)
        self._set(*a, **k)
        return self

    def _like(self, data=None, dims=None, attrs=None):
        r = DataArray.raw(self._data if data is None else data, self.dims if dims is None else dims,
                          dict(self.attrs if attrs is None else attrs), self.name, self._source)
        r._coord = self._coord
        return r

    @property
    def values(self):
        if self._source is not None:
            self._source.need_open("r")
            self._data = copied(self._data)
            self._source = None
            if self._coord and len(self.dims) == 1:
                self._data.flags.writeable = False
        return self._data

    data = values

    def load(self, **k):
        self.values
        return self

    def compute(self, **k):
        return self.copy()

    def copy(self, deep=True, data=None):
        if data is not None:
            return DataArray(data, dims=self.dims, attrs=self.attrs, name=self.name)
        r = self._like()
        if deep and self._source is None:
            r._data = copied(self._data)
        return r

    def __deepcopy__(self, memo):
        return self.copy()

    __copy__ = lambda self: self.copy(deep=False)  # noqa

    shape = property(lambda self: shape_of(self._data))
    ndim = property(lambda self: len(self.shape))
    size = property(lambda self: math.prod(self.shape))
    dtype = property(lambda self: self._data.dtype if is_array(self._data) else _np.dtype(type(self._data)) if isinstance(self._data, (int, float)) else _np.dtype(object))
    sizes = property(lambda self: dict(zip(self.dims, self.shape)))

    def item(self):
        if isinstance(self._data, Opaque):
            return self._data.item()
        v = self.values
        if is_array(v):
            for n in v.shape:
                if n != 1:
                    raise ValueError("can only convert an array of size 1 to a Python scalar")
            return v[(0,) * len(v.shape)]
        return v

    def rename(self, new=None, **k):
        if new is not None and not isinstance(new, dict):
            raise Unsupported("renaming an array")
        new = {**(new or {}), **k}
        for d in new:
            if d not in self.dims and d != self.name:
                raise ValueError(f"cannot rename {d!r} because it is not a variable or dimension in this dataset")
        dims = tuple(new.get(d, d) for d in self.dims)
        if len(set(dims)) != len(dims):
            raise ValueError("the new name conflicts")
        return self._like(dims=dims)

    def transpose(self, *dims):
        if ... in dims:
            raise Unsupported("transpose with an ellipsis")
        dims = dims or tuple(reversed(self.dims))
        if set(dims) != set(self.dims):
            raise ValueError("dims must be permuted")
        return self._like(self._data.transpose([self.dims.index(d) for d in dims]), dims)

    def isel(self, indexers=None, drop=False, missing_dims="raise", **k):
        k = {**(indexers or {}), **k}
        for d in k:
            if d not in self.dims and missing_dims == "raise":
                raise ValueError(f"Dimensions {d} do not exist")
        if any(not isinstance(i, (int, slice)) for i in k.values()):
            raise Unsupported("isel")
        if not any(d in self.dims for d in k):
            return self._like()
        idx = tuple(k.get(d, slice(None)) for d in self.dims)
        return self._like(self._data[idx], tuple(d for d in self.dims if not isinstance(k.get(d), int)))

    def squeeze(self, *a, **k):
        raise Unsupported("squeeze")

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        raise Unsupported("DataArray." + name)


SINCE = re.compile(r"\s*\w+\s+since\s.*")
TIME_UNITS = {"days", "hours", "minutes", "seconds", "milliseconds", "microseconds", "nanoseconds"}


class _Vars:
    """Mapping of part of a data set."""

    def __init__(self, ds, names):
        self.ds, self.names = ds, names

    def __iter__(self):
        return iter(self.names)

    def __len__(self):
        return len(self.names)

    def __contains__(self, n):
        return n in self.names

    def __getitem__(self, n):
        if n not in self.names:
            raise KeyError(n)
        return self.ds._vars[n]

    def get(self, n, default=None):
        return self[n] if n in self else default

    def keys(self):
        return dict.fromkeys(self.names).keys()

    def values(self):
        return [self[n] for n in self.names]

    def items(self):
        return [(n, self[n]) for n in self.names]


class Dataset:
    def __init__(self, data_vars=None, coords=None, attrs=None):
        if coords is not None:
            raise Unsupported("coordinates")
        vs = {}
        for n, v in (data_vars or {}).items():
            if isinstance(v, tuple):
                v = DataArray(v[1], dims=v[0], attrs=v[2] if len(v) > 2 else None)
            vs[n] = v._like() if isinstance(v, DataArray) else DataArray(v)
        self._set(vs, dict(attrs or {}))
        sizes = {}
        for n, v in vs.items():
            for d, s in zip(v.dims, v.shape):
                if d in sizes and bool(sizes[d] != s):
                    raise ValueError(f"conflicting sizes for dimension {d!r}")
                sizes[d] = s

    def _set(self, vs, attrs):
        self._vars, self.attrs = vs, attrs
        for n, v in vs.items():
            v.name = n

    @classmethod
    def raw(cls, vs, attrs):
        self = cls.__new__(cls)
        self._set(vs, attrs)
        return self

    def _coords(self):
        return [n for n, v in self._vars.items() if v._coord or n in v.dims]

    data_vars = property(lambda self: _Vars(self, [n for n in self._vars if n not in self._coords()]))
    coords = property(lambda self: _Vars(self, self._coords()))
    variables = property(lambda self: _Vars(self, list(self._vars)))

    def __getitem__(self, n):
        if isinstance(n, list):
            return Dataset.raw({k: self._vars[k]._like() for k in n}, self.attrs)
        return self._vars[n]

    def __setitem__(self, n, v):
        self._vars[n] = v if isinstance(v, DataArray) else DataArray(v)

    def __iter__(self):
        return iter(self.data_vars)

    def __contains__(self, n):
        return n in self._vars

    def keys(self):
        return self.data_vars.keys()

    def values(self):
        return self.data_vars.values()

    def items(self):
        return self.data_vars.items()

    def isel(self, indexers=None, drop=False, missing_dims="raise", **k):
        k = {**(indexers or {}), **k}
        for d in k:
            if missing_dims == "raise" and not any(d in v.dims for v in self._vars.values()):
                raise ValueError(f"Dimensions {d} do not exist")
        return Dataset.raw({n: v.isel(missing_dims="ignore", **k) for n, v in self._vars.items()}, self.attrs)

    def drop_vars(self, names, errors="raise"):
        names = [names] if isinstance(names, str) else list(names)
        for n in names:
            if n not in self._vars and errors == "raise":
                raise ValueError("One or more of the specified variables cannot be found")
        return Dataset.raw({n: v for n, v in self._vars.items() if n not in names}, self.attrs)

    drop = drop_vars

    def rename(self, new=None, **k):
        new = {**(new or {}), **k}
        return Dataset.raw({new.get(n, n): v.rename({d: e for d, e in new.items() if d in v.dims}) for n, v in self._vars.items()}, self.attrs)

    def load(self, **k):
        for v in self._vars.values():
            v.load()
        return self

    def compute(self, **k):
        return self.copy(deep=True).load()

    def copy(self, deep=False):
        return Dataset.raw({n: v.copy(deep) for n, v in self._vars.items()}, dict(self.attrs))

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def to_netcdf(self, path=None, mode="w", **k):
        if k or mode != "w" or not isinstance(path, File):
            raise Unsupported("to_netcdf options")
        path.need_open("w")
        if "b" not in path.mode:
            raise TypeError("write() argument must be str, not bytes")
        stored = {}
        for n, v in self._vars.items():
            attrs = dict(v.attrs)
            data = copied(v.values)
            if not is_array(data) and hasattr(data, "timetuple"):
                if "units" in attrs or "calendar" in attrs:
                    raise ValueError("failed to prevent overwriting existing key units in attrs")
                data, attrs = ("time", copy.copy(data)), dict(attrs, units="days since then", calendar="c")
            stored[n] = (data, v.dims, attrs)
        path.disk.files[path.path] = ("netcdf", stored, dict(self.attrs))

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        raise Unsupported("Dataset." + name)


def _decoded(v, times, deltas, use_cftime):
    u = v.attrs.get("units")
    if not isinstance(u, str):
        return v
    attrs = {k: x for k, x in v.attrs.items() if k not in ("units", "calendar")}
    if times and SINCE.fullmatch(u):
        if isinstance(v._data, tuple):
            t = v._data[1]
            if not use_cftime and getattr(t, "calendar", "standard") in ("standard", "gregorian", "proleptic_gregorian"):
                t = _np.datetime64(0, "s")
            r = v._like(attrs=attrs)
            r._data = t
            return r
        return v._like(data=Opaque("decoded times", v._data), attrs=attrs)
    if deltas and u in TIME_UNITS:
        return v._like(data=Opaque("decoded time differences", v._data), attrs=attrs)
    return v


class Opaque:
    """Values that stand for something else than the numbers stored."""

    def __init__(self, what, like):
        self.what, self.shape = what, shape_of(like)
        self.dtype = _np.dtype("O")

    def item(self):
        if self.what != "decoded times":
            raise Unsupported(self.what)
        if any(bool(n != 1) for n in self.shape):
            raise ValueError("can only convert an array of size 1 to a Python scalar")
        import cftime

        return cftime.DatetimeJulian(2000, 1, 1)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported(self.what)


def decode_cf(ds, use_cftime=None, decode_times=True, decode_timedelta=None, decode_coords=True, mask_and_scale=True, **k):
    if k or not isinstance(ds, Dataset):
        raise Unsupported("decode_cf options")
    return Dataset.raw({n: _decoded(v, decode_times, decode_times if decode_timedelta is None else decode_timedelta, use_cftime)
                        for n, v in ds._vars.items()}, ds.attrs)


def make_xarray(disk):
    def open_dataset(f, decode_cf=True, engine=None, **k):
        if isinstance(f, str):
            f = disk.open(f, "rb")
        if not isinstance(f, File):
            raise Unsupported("open_dataset of something else")
        f.need_open("r")
        c = disk.files[f.path]
        if not (isinstance(c, tuple) and c[0] == "netcdf") or "b" not in f.mode:
            raise ValueError("did not find a match in any of xarray's currently installed IO backends")
        vs = {n: DataArray.raw(data, dims, dict(attrs), n, f) for n, (data, dims, attrs) in c[1].items()}
        for n, v in vs.items():
            v._coord = n in v.dims
            if isinstance(v._data, tuple):
                v._source = None
        ds = Dataset.raw(vs, dict(c[2]))
        if not decode_cf:
            k.setdefault("decode_times", False)
            k.setdefault("decode_timedelta", False)
        return decode_cf_(ds, **k)

    decode_cf_ = decode_cf
    return StubModule("xarray", {"DataArray": DataArray, "Dataset": Dataset, "open_dataset": open_dataset, "decode_cf": decode_cf})


# -- zarr -------------------------------------------------------------------------
class ZarrStore:
    """Storage shared by all handles of one store."""

    def __init__(self, empty):
        self.empty = empty
        self.arrays = {}
        self.attrs = {}
        self.log = []
        self.writer = None


class Attrs(dict):
    """Attributes are stored with the array, not with the handle."""

    def __deepcopy__(self, memo):
        return self

    def asdict(self):
        return dict(self)

    def put(self, d):
        self.clear()
        self.update(d)


class ZarrArrayData:
    def __init__(self, store, name, shape, dtype, chunks):
        self.store, self.name, self.shape, self.dtype, self.chunks = store, name, tuple(shape), _np.dtype(dtype), chunks
        self.attrs = Attrs()
        self.slabs = []
        self.grow()

    def grow(self):
        n = self.shape[0]
        if not isinstance(n, int):
            raise Unsupported("leading size that is not a number")
        del self.slabs[n:]
        while len(self.slabs) < n:
            self.slabs.append(self.store.empty(self.shape[1:], dtype=self.dtype))


class ZarrArray:
    """A handle: knows the shape the array had when the handle was made."""

    def __init__(self, data):
        self._d, self._shape = data, data.shape

    def __deepcopy__(self, memo):
        return ZarrArray(self._d)

    __copy__ = lambda self: self  # noqa
    shape = property(lambda self: self._shape)
    ndim = property(lambda self: len(self._shape))
    dtype = property(lambda self: self._d.dtype)
    chunks = property(lambda self: self._d.chunks)
    attrs = property(lambda self: self._d.attrs)
    name = property(lambda self: "/" + self._d.name)
    basename = property(lambda self: self._d.name)

    def __len__(self):
        return self._shape[0]

    def resize(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = shape[0]
        if len(shape) != len(self._shape):
            raise ValueError("new shape must have same number of dimensions")
        for a, b in zip(shape[1:], self._d.shape[1:]):
            if bool(a != b):
                raise Unsupported("resizing other than the first dimension")
        self._d.shape = self._shape = tuple(shape)
        self._d.grow()

    def _locate(self, key):
        key = key if isinstance(key, tuple) else (key,)
        if any(k is Ellipsis or k is None or not (isinstance(k, (int, slice)) or hasattr(k, "__index__")) for k in key):
            raise Unsupported("zarr selection")
        if len(key) > len(self._shape):
            raise IndexError("too many indices for array")
        first = key[0]
        if not isinstance(first, int):
            raise Unsupported("zarr selection of several times")
        if first < 0 or first >= self._shape[0]:
            raise IndexError(f"index out of bounds for dimension with length {self._shape[0]}")
        if first >= len(self._d.slabs):
            raise Unsupported("writing beyond the stored array")
        return first, key[1:]

    def __setitem__(self, key, value):
        t, rest = self._locate(key)
        slab = self._d.slabs[t]
        self._d.store.log.append((self._d.store.writer, self._d.name, t, rest))
        if isinstance(value, DataArray):
            value = value.values
        target = slab[rest] if rest else slab
        if is_array(value) and is_array(target) and len(value.shape) == len(target.shape):
            # zarr does not broadcast
            if any(bool(a != b) for a, b in zip(value.shape, target.shape)):
                raise ValueError("parameter 'value': expected array with another shape")
        elif is_array(value) and len(shape_of(value)):
            raise ValueError("parameter 'value': expected array with another shape")
        if not is_array(value) and isinstance(value, (int, float, _np.number)):
            value = self._d.dtype.type(value).item()  # what the array can hold
        slab[rest if rest else ...] = value

    def __getitem__(self, key):
        t, rest = self._locate(key)
        return copied(self._d.slabs[t][rest] if rest else self._d.slabs[t])

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        raise Unsupported("zarr array " + name)


class ZarrGroup:
    def __init__(self, store):
        self.store = store

    def __deepcopy__(self, memo):
        return ZarrGroup(self.store)

    attrs = property(lambda self: self.store.attrs)

    def create_dataset(self, name, shape=None, dtype=None, chunks=True, fill_value=0, overwrite=False, **k):
        if k or not isinstance(chunks, tuple) or shape is None:
            raise Unsupported("create_dataset options")
        if name in self.store.arrays and not overwrite:
            raise ValueError(f"path {name!r} contains an array")
        if len(chunks) != len(shape):
            raise ValueError("chunks and shape differ in length")
        self.store.arrays[name] = ZarrArrayData(self.store, name, shape, dtype or "float64", chunks)
        return ZarrArray(self.store.arrays[name])

    def __getitem__(self, name):
        return ZarrArray(self.store.arrays[name])

    def __contains__(self, name):
        return name in self.store.arrays

    def __iter__(self):
        return iter(self.store.arrays)

    def array_keys(self):
        return iter(self.store.arrays)

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        raise Unsupported("zarr group " + name)


def make_zarr(stores, empty):
    def open_group(store=None, mode="a", **k):
        if k or not isinstance(store, str):
            raise Unsupported("open_group options")
        if mode in ("w", "w-") or (mode == "a" and store not in stores):
            if mode == "w-" and store in stores:
                raise ValueError("contains a group")
            stores[store] = ZarrStore(empty)
        if store not in stores:
            raise ValueError("group not found")
        return ZarrGroup(stores[store])

    return StubModule("zarr", {"open_group": open_group, "Group": ZarrGroup, "Array": ZarrArray,
                               "storage": StubModule("zarr.storage", {"MutableMapping": dict})})
