"""Quantities backed by gt4py storages, with a stand-in for that library."""
import importlib
import itertools

from . import inject
from . import scatter as sc

BOUNDS = {
    "C33": "arrays of one to four dimensions with symbolic shapes (to 12), origins and padding (to 4); C, Fortran and padded, permuted storage layouts "
    "(padding to 7); every transposition of up to three dimensions; scatter and gather on layouts up to 2 x 2 and of the cube with one rank a tile "
    "with symbolic sizes; allocation by a factory for layouts up to 8 x 8 on every rank",
}
OUTSIDE = {"C33": "arrays without dimensions, which gt4py has no storages for"}
ASSUMPTIONS = [
    "gt4py itself is not installed: a stand-in written from its interface takes its place, whose storages are subclasses of numpy's array in new memory "
    "with a backend and a default origin, not always contiguous, those of a GPU backend together with a stand-in for cupy",
]
BACKENDS = ["numpy", "gtmc", "gtx86"]


class Lib:
    pads = None
    mods = None


def stubs(ctx, cfg):
    from symx import devlib, gtlib, npshim
    from symx.sarray import SymArray

    n = itertools.count()

    def alloc(shape, dtype, order):
        if order == "C":
            return npshim.empty(shape, dtype)
        from symx.sarray import fresh_garbage

        return SymArray(fresh_garbage(shape, dtype, order), owns=True)

    Lib.mods = {} if cfg.get("without") else gtlib.modules(True, alloc, lambda: ctx.int(f"pad{next(n)}", 0, 7))
    if uses_device(cfg):
        Lib.mods.update(devlib.modules(True))
    return Lib.mods


def uses_device(cfg):
    return cfg.get("backend") == "gtcuda"


def native(env, cfg):
    import numpy as np

    from symx import devlib, gtlib

    n = itertools.count()

    def alloc(shape, dtype, order):
        if order == "C":
            return np.empty(tuple(int(s) for s in shape), dtype)
        return np.empty(tuple(int(shape[k]) for k in order), dtype).transpose(np.argsort(order))

    mods = {} if cfg.get("without") else gtlib.modules(False, alloc, lambda: env.int(f"pad{next(n)}", 0, 7))
    if uses_device(cfg):
        mods.update(devlib.modules(False))
    return mods


def run(env, cfg):
    if env.symbolic:
        env.gt = Lib.mods.get("gt4py")
        globals()["run_" + cfg["kind"]](env, cfg)
        return
    mods = native(env, cfg)
    with inject.libraries(env, mods):
        env.gt = mods.get("gt4py")
        globals()["run_" + cfg["kind"]](env, cfg)


def layout(env, dims, pad=4, nmax=12):
    origin, extent, shape = [], [], []
    for k, _ in enumerate(dims):
        o, n, t = env.int(f"o{k}", 0, pad), env.int(f"n{k}", 1, nmax), env.int(f"t{k}", 0, pad)
        origin.append(o), extent.append(n), shape.append(o + n + t)
    return tuple(origin), tuple(extent), tuple(shape)


def compare(env, arr, ref, label, detail=None):
    env.check_forall([(f"p{k}", 0, s) for k, s in enumerate(arr.shape)],
                     lambda *p: env.same(env.value(arr, *p), ref(*p)), label, detail)


def check_storage(env, q, backend, origin, shape, dtype, label, made=True):
    env.check(q.gt4py_backend == backend, label + ": the quantity reports the backend", lambda: f"{q.gt4py_backend}")
    st = q.storage
    lib = env.gt.storage.storage
    gpu = backend == "gtcuda"
    env.check(isinstance(st, lib.GPUStorage if gpu else lib.CPUStorage), label + ": the storage is one of the backend's",
              lambda: f"{type(st)}")
    if gpu:
        env.check(type(q.data).__name__ == "DevArray" and q.np.__name__ == "cupy", label + ": the data is on the device")
    env.check(st.backend == backend, label + ": the storage is of that backend", lambda: f"{st.backend}")
    env.check(not isinstance(q.data, env.gt.storage.storage.Storage), label + ": the data is a plain array")
    for a in (st, q.data):
        env.check(len(a.shape) == len(shape), label + ": shape")
        for x, y in zip(a.shape, shape):
            env.check(x == y, label + ": shape", lambda: f"{a.shape} not {shape}")
        env.check(a.dtype == dtype, label + ": element type", lambda: f"{a.dtype} not {dtype}")
    if made:
        env.check(len(st.default_origin) == len(origin), label + ": the storage's default origin is the quantity's")
        for x, y in zip(st.default_origin, origin):
            env.check(x == y, label + ": the storage's default origin is the quantity's",
                      lambda: f"{st.default_origin} not {origin}")


def check_meta(env, q, dims, origin, extent, label):
    env.check(tuple(q.dims) == tuple(dims) and q.units == "kg", label + ": dimensions and units", lambda: f"{q.dims}")
    for got, want in ((q.origin, origin), (q.extent, extent)):
        env.check(len(got) == len(want), label + ": origin and extent")
        for x, y in zip(got, want):
            env.check(x == y, label + ": origin and extent", lambda: f"{q.origin} {q.extent}")


def check_one_memory(env, q, label):
    """writes through each of storage, data and view are seen through the others"""
    dt = str(q.data.dtype)
    new = env.array("w1", q.data.shape, dt)
    ref = env.snapshot(new)
    q.storage[...] = new
    compare(env, q.data, ref, label + ": data shows what is written to the storage")
    compare(env, q.view[:], lambda *p: ref(*[a + o for a, o in zip(p, q.origin)]),
            label + ": the view shows what is written to the storage")
    new = env.array("w2", q.data.shape, dt)
    ref2 = env.snapshot(new)
    q.data[...] = q.np.asarray(new)
    compare(env, q.storage, ref2, label + ": the storage shows what is written to the data")
    new = env.array("w3", q.extent, dt)
    ref3 = env.snapshot(new)
    q.view[:] = q.np.asarray(new)

    def inside(*p):
        if env.And(*[env.And(i >= o, i < o + e) for i, o, e in zip(p, q.origin, q.extent)]):
            return env.same(env.value(q.storage, *p), ref3(*[i - o for i, o in zip(p, q.origin)]))
        return env.same(env.value(q.storage, *p), ref2(*p))

    env.check_forall([(f"p{k}", 0, s) for k, s in enumerate(q.data.shape)], inside,
                     label + ": the storage shows what is written to the view")
    env.check(q.storage is q.storage, label + ": the storage is the same each time")


def storage_of(env, cfg, shape, backend, name="st"):
    st = env.gt.storage.storage.empty(backend, (0,) * len(shape), shape, cfg.get("dtype", "float64"), managed_memory=True)
    st[...] = env.array(name, shape, cfg.get("dtype", "float64"))
    return st


def build(env, cfg, dims, origin, extent, shape):
    """(quantity, what its data should hold, backend)"""
    backend = cfg["backend"]
    if cfg["given"] == "storage":
        st = storage_of(env, cfg, shape, backend)
        before = env.snapshot(st)
        q = env.util.Quantity(st, dims, "kg", origin=origin, extent=extent)
        env.check(q.storage is st, "given storage: it is the quantity's storage")
        return q, before, st
    a = env.array("a", shape, cfg.get("dtype", "float64"), cfg.get("order", "C"))
    before = env.snapshot(a)
    kw = dict(origin=origin, extent=extent) if not cfg.get("defaults") else {}
    if cfg["given"] == "data_array":
        class Labelled:
            values, attrs = a, {"units": "kg"}

        Labelled.dims = tuple(dims)
        q = env.util.Quantity.from_data_array(Labelled, gt4py_backend=backend, **kw)
    else:
        q = env.util.Quantity(a, tuple(dims), "kg", gt4py_backend=backend, **kw)
    return q, before, a


def run_make(env, cfg):
    dims = cfg["dims"]
    origin, extent, shape = layout(env, dims)
    if cfg.get("defaults"):
        for o, n, s in zip(origin, extent, shape):
            env.assume(env.And(o == 0, n == s))
    q, before, src = build(env, cfg, dims, origin, extent, shape)
    label = cfg["given"]
    made = cfg["given"] != "storage"
    check_storage(env, q, cfg["backend"], origin, shape, src.dtype, label, made)
    check_meta(env, q, dims, origin, extent, label)
    compare(env, q.data, before, label + ": data holds the values given")
    compare(env, q.storage, before, label + ": the storage holds the values given")
    compare(env, src, before, label + ": what was given is unchanged")
    check_one_memory(env, q, label)
    if made:
        compare(env, src, before, label + ": later writes do not reach the array that was given")
    env.cover("storage-backed quantity")


def run_transpose(env, cfg):
    dims = cfg["dims"]
    origin, extent, shape = layout(env, dims)
    q, before, src = build(env, cfg, dims, origin, extent, shape)
    perm = env.choice("perm", list(itertools.permutations(range(len(dims)))))
    t = q.transpose([dims[k] for k in perm])
    tr = lambda x: tuple(x[k] for k in perm)  # noqa
    inv = [perm.index(k) for k in range(len(dims))]
    check_storage(env, t, cfg["backend"], tr(origin), tr(shape), src.dtype, "transposed")
    check_meta(env, t, tr(dims), tr(origin), tr(extent), "transposed")
    back = lambda *p: before(*[p[inv[k]] for k in range(len(dims))])  # noqa
    compare(env, t.data, back, "transposed: data holds the values, transposed")
    compare(env, t.storage, back, "transposed: the storage holds the values, transposed")
    check_one_memory(env, t, "transposed")
    env.cover("transposed storage")


def run_refused(env, cfg):
    """no backend and no storage: no storage; two backends at once: TypeError"""
    dims = cfg["dims"]
    origin, extent, shape = layout(env, dims)
    a = env.array("a", shape)
    q = env.util.Quantity(a, dims, "kg", origin=origin, extent=extent)
    env.check(q.gt4py_backend is None, "without a backend: none is reported")
    env.check(q.data is a, "without a backend: the array is used as it is")
    try:
        q.storage
    except TypeError:
        pass
    else:
        env.fail("without a backend: asking for the storage raises TypeError")
    t = q.transpose(tuple(reversed(dims)))
    env.check(t.gt4py_backend is None, "without a backend: transposing selects none")
    try:
        t.storage
    except TypeError:
        pass
    else:
        env.fail("without a backend: asking for the storage raises TypeError")
    if env.gt is not None:
        given = env.choice("given", ["numpy", "gtmc"])
        asked = env.choice("asked", ["numpy", "gtmc"])
        st = storage_of(env, cfg, shape, given)
        before = env.snapshot(st)
        try:
            env.util.Quantity(st, dims, "kg", origin=origin, extent=extent, gt4py_backend=asked)
        except TypeError:
            pass
        else:
            env.fail("a backend given next to a storage is a TypeError", lambda: f"{given} {asked}")
        compare(env, st, before, "a refused storage is unchanged")
    env.cover("refused")


def run_comm(env, cfg):
    """scatter, then gather: the quantities made on the way keep the backend of what was sent"""
    ny, nx, R, w, my, mx, other = sc.base(env, cfg)
    geo = sc.Geo(env, "", cfg["dims"], cfg, my, mx, ny, nx, other)
    gdims, gext = list(geo.dims), list(geo.tile)
    if cfg.get("cube"):
        gdims, gext = ["tile"] + gdims, [6] + gext
    origin, shape = sc.padded(env, "g", gext, set(range(1 if cfg.get("cube") else 0, len(gext))))
    backend, back = cfg["backend"], cfg["back"]
    st = storage_of(env, cfg, shape, backend)
    before = env.snapshot(st)
    q = env.util.Quantity(st, gdims, "kg", origin=origin, extent=tuple(gext))

    def program(r):
        def f(comm):
            c = sc.communicator(env, cfg, comm)
            part = c.scatter(q if r == 0 else None)
            held = part.data
            own = env.util.Quantity(held, part.dims, part.units, origin=part.origin, extent=part.extent,
                                    gt4py_backend=back)
            return part, c.gather(own)

        return f

    res = w.run({r: program(r) for r in range(R)})
    for r in range(R):
        part, whole = res[r]
        check_storage(env, part, backend, part.origin, part.data.shape, st.dtype, "scattered", made=False)
        for x, y in zip(part.storage.default_origin, part.origin):
            env.check(x == y, "scattered: the storage's default origin is the quantity's")
        for a, label in ((part.data, "scattered: data"), (part.storage, "scattered: storage")):
            sc.compare_rank(env, cfg, geo, r, my, mx, a, part.origin, before, origin,
                            label + " holds the rank's share")
        if r == 0:
            check_storage(env, whole, back, whole.origin, gext, st.dtype, "gathered", made=False)
            for a, label in ((whole.data, "gathered: data"), (whole.storage, "gathered: storage")):
                env.check_forall(
                    [(f"g{k}", 0, e) for k, e in enumerate(gext)],
                    lambda *p, a=a: env.same(env.value(a, *p), before(*[i + o for i, o in zip(p, origin)])),
                    label + " holds what was scattered")
            check_one_memory(env, whole, "gathered")
    check_one_memory(env, res[R - 1][0], "scattered")
    env.cover("scattered and gathered storage")


def run_factory(env, cfg):
    u = env.util
    init = importlib.import_module("fv3gfs.util.initialization") if not env.symbolic else u.initialization
    my, mx = cfg["layout"]
    ny, nx, nz, h = env.int("ny", 1, 8), env.int("nx", 1, 8), env.int("nz", 1, 6), env.int("h", 0, 3)
    sizer = init.SubtileGridSizer(nx=nx, ny=ny, nz=nz, n_halo=h, extra_dim_lengths={"other": env.int("ne", 1, 4)})
    dims = cfg["dims"]
    backend = cfg["backend"]
    f = init.QuantityFactory.from_backend(sizer, backend)
    what = env.choice("what", ["empty", "zeros", "ones"])
    if cfg.get("dtype"):
        q = getattr(f, what)(dims, "kg", dtype=cfg["dtype"])
    else:
        q = getattr(f, what)(dims, "kg")
    ext = sizer.get_extent(dims)
    org = sizer.get_origin(dims)
    shape = sizer.get_shape(dims)
    import numpy as np

    dtype = np.dtype(cfg.get("dtype") or "float64")
    check_storage(env, q, backend, org, shape, dtype, "allocated")
    check_meta(env, q, dims, org, ext, "allocated")
    if what != "empty":
        v = 0.0 if what == "zeros" else 1.0
        compare(env, q.data, lambda *p: v, "allocated: every element is zero or one as asked")
    check_one_memory(env, q, "allocated")
    q2 = getattr(f, what)(dims, "kg")
    env.check(not env.shares(q.data, q2.data), "allocated: each quantity has memory of its own")
    env.cover("allocated storage")


def configs(tier, prop):
    out = []

    def add(name, kind, **k):
        k.setdefault("max_models", 8)
        out.append(dict(name=name, kind=kind, **k))

    yx, zyx = ["y", "x"], ["z", "y", "x"]
    for b in BACKENDS:
        add(f"array-{b}", "make", given="array", backend=b, dims=zyx)
        add(f"array-F-{b}", "make", given="array", backend=b, dims=["x_interface", "y"], order="F", dtype="float32")
        add(f"storage-{b}", "make", given="storage", backend=b, dims=zyx)
        add(f"transpose-{b}", "transpose", given="storage" if b != "gtmc" else "array", backend=b, dims=zyx)
        add(f"factory-{b}", "factory", backend=b, dims=["y", "x_interface", "z"], layout=[1, 1])
    for given in ("array", "storage", "data_array"):
        add(f"device-{given}", "make", given=given, backend="gtcuda", dims=zyx, order="F")
    add("device-transpose", "transpose", given="array", backend="gtcuda", dims=zyx)
    add("device-transpose-storage", "transpose", given="storage", backend="gtcuda", dims=yx, dtype="float32")
    add("device-factory", "factory", backend="gtcuda", dims=["x", "y_interface"], layout=[1, 1])
    add("device-tile", "comm", layout=[2, 1], dims=["y", "x"], backend="gtcuda", back="gtcuda")
    add("device-cube", "comm", layout=[1, 1], cube=True, dims=["y", "x_interface"], backend="gtcuda", back="gtcuda")
    add("array-1d", "make", given="array", backend="gtmc", dims=["z"], dtype="int32")
    add("array-4d", "make", given="array", backend="numpy", dims=["tile", "z", "y", "x"])
    add("array-defaults", "make", given="array", backend="numpy", dims=yx, defaults=True)
    add("storage-1d", "make", given="storage", backend="gtmc", dims=["z"], dtype="float32")
    add("labelled", "make", given="data_array", backend="gtx86", dims=yx)
    add("labelled-defaults", "make", given="data_array", backend="gtmc", dims=zyx, defaults=True)
    add("transpose-2d", "transpose", given="array", backend="numpy", dims=["x", "y_interface"], dtype="float32")
    add("factory-2d", "factory", backend="numpy", dims=["x", "y"], layout=[1, 1], dtype="float32")
    add("factory-other", "factory", backend="gtmc", dims=["other", "y_interface"], layout=[1, 1], dtype="int32")
    add("refused", "refused", dims=yx)
    add("refused-3d", "refused", dims=zyx)
    add("no-library", "refused", dims=yx, without=True)
    C = "comm"
    add("comm-tile-1x2", C, layout=[1, 2], dims=yx, backend="numpy", back="gtmc")
    add("comm-tile-2x2", C, layout=[2, 2], dims=["z", "y_interface", "x"], backend="gtmc", back="numpy", sched="down")
    add("comm-tile-2x1", C, layout=[2, 1], dims=["x", "y"], backend="gtx86", back="gtx86", dtype="float32")
    add("comm-cube", C, layout=[1, 1], cube=True, dims=["y", "x"], backend="gtmc", back="gtx86")
    return out
