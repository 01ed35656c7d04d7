"""Quantities: views of the compute domain, corners, edges; transpose; construction."""
import itertools

from .geometry import ax

BOUNDS = {
    "C12": "one to four dimensions, every origin and trailing padding up to 9, every extent up to 40 (4 and 12 with four dimensions), every integer and slice "
    "end (of Python or numpy type) from the first to past the last element of the array, open ends, as symbolic integers; steps 1 to 10, 13, 17, 100 forwards and 1 to 7, 9, 12, 100 backwards",
    "C13": "the four corner views and the interior view, one to three dimensions in several orders and staggerings, every origin "
    "and padding up to 9, extent up to 40, every offset (negative ones too) whose element lies in the array",
    "C14": "every permutation of up to four dimensions, symbolic shapes, origins and extents, targets by name and by group",
    "C27": "the eight boundaries, up to three dimensions in several orders and staggerings, widths 1 to 8, symbolic extents up "
    "to 20, origins and padding up to 9, two requests in a row on differently padded quantities",
    "C39": "quantities of zero to four dimensions in several orders, with symbolic shapes, origins, extents (up to 40) and element types, copied by copy.deepcopy, by pickling, both, within a "
    "state and from views, transposed quantities and quantities looked at before",
    "C28": "arrays of zero to four dimensions with symbolic shapes, origins and extents (up to 20000 elements), as Python or numpy integers; every mismatch of lengths by one",
}
OUTSIDE = {
    "C12": "new-axis and array indices; slice ends which count back beyond the start of the array",
    "C13": "explicit ends of interior slices which count backwards, offsets whose element lies outside the array",
    "C14": "quantities backed by gt4py storages or GPU arrays",
    "C27": "zero widths",
    "C39": "gt4py storages and GPU arrays",
    "C28": "gt4py storages and GPU arrays; origins and extents outside the array",
}
ASSUMPTIONS = [
    "basic indexing, transposition and flags of numpy arrays as in numpy's documentation (the model's indexing is "
    "compared with numpy on every path's example run)",
    "the labelled-array library keeps the array, dimension names and attributes it is given",
]


class DataArray:
    def __init__(self, data=None, dims=None, attrs=None):
        self.values, self.data = data, data
        self.dims, self.attrs = tuple(dims), dict(attrs or {})


def stubs(ctx, cfg):
    from symx import loader

    return {"xarray": loader.StubModule("xarray", {"DataArray": DataArray})}


UNITS = " kg  m**-2 "  # kept letter for letter


def quantity(env, name, dims, cfg, pad=None, nmax=None, full=False):
    pad = pad or (9 if len(dims) < 4 else 4)
    nmax = nmax or (40 if len(dims) < 4 else 12)
    origin, extent, shape = [], [], []
    for k, d in enumerate(dims):
        o = env.int(f"o{name}{k}", 0, pad)
        n = env.int(f"n{name}{k}", 0 if cfg.get("zero") else 1, nmax)
        t = env.int(f"t{name}{k}", 0, pad)
        origin.append(o), extent.append(n), shape.append(o + n + t)
    data = env.array("a" + name, shape, cfg.get("dtype", "float64"), cfg.get("order", "C"))
    q = env.util.Quantity(data, tuple(dims), UNITS, origin=tuple(origin), extent=tuple(extent))
    return q, data, tuple(origin), tuple(extent), tuple(shape)


class Sel:
    """What one index entry addresses: start, count, step (count None: one element)."""

    def __init__(self, start, n, step=1):
        self.start, self.n, self.step = start, n, step


def count(env, a, b, step):
    if step < 0:
        a, b, step = b, a, -step
    if a >= b:
        return 0
    return (b - a + (step - 1)) // step


STEPS = [4, 5, 6, 7, 8, 9, 10, 13, 17, 100, -4, -5, -6, -7, -9, -12, -100]


def entry(env, k, form, sbase, ebase, lo, hi, origin, extent, shape, npint=False):
    """(index entry, Sel).  form: i=integer, else start/stop each given or open, with a step.

    sbase and ebase: array positions the start and end offsets count from.
    """
    wrap = env.npint if npint else lambda v: v
    if form == "i":
        v = env.int(f"i{k}", lo, hi)
        env.assume(env.And(sbase + v >= 0, sbase + v < shape))
        return wrap(v), Sel(sbase + v, None)
    if form[2:] == "n":
        form = form[:2] + str(env.choice(f"step{k}", STEPS))
    a_open, b_open, step = form[0] == "-", form[1] == "-", int(form[2:] or 1)
    a, b, s, e = None, None, origin, origin + extent
    if step < 0:
        s, e = e - 1, s - 1
    if not a_open:
        a = env.int(f"a{k}", lo, hi)
        s = sbase + a
        env.assume(env.And(s >= 0, s <= shape if step > 0 else s < shape))
    if not b_open:
        b = env.int(f"b{k}", lo, hi)
        e = ebase + b
        env.assume(env.And(e >= 0, e <= shape))
    return slice(*[None if v is None else wrap(v) for v in (a, b, None if len(form) == 2 else step)]), Sel(s, count(env, s, e, step), step)


def dims_of(sels):
    return [s.n for s in sels if s.n is not None]


def address(sels, idx):
    it = iter(idx)
    return tuple(s.start if s.n is None else s.start + s.step * next(it) for s in sels)


def addressed(env, sels, p):
    cs = []
    for s, i in zip(sels, p):
        if s.n is None:
            cs.append(i == s.start)
        elif s.step < 0:
            cs.append(env.And(i <= s.start, i > s.start + s.n * s.step))
            if s.step < -1:
                cs.append((s.start - i) % -s.step == 0)
        else:
            cs.append(env.And(i >= s.start, i < s.start + s.n * s.step))
            if s.step > 1:
                cs.append((i - s.start) % s.step == 0)
    return env.And(*cs)


def check_read(env, got, sels, before, label):
    shape = dims_of(sels)
    if not shape:
        env.check(env.same(got if not hasattr(got, "shape") or not env.symbolic else got,
                           before(*address(sels, ()))), label + ": value of one element")
        return
    env.check(len(got.shape) == len(shape), label + ": number of dimensions", lambda: f"{got.shape}")
    for x, y in zip(got.shape, shape):
        env.check(x == y, label + ": shape", lambda: f"{got.shape} not {shape}")
    env.check_forall(
        [(f"p{k}", 0, n) for k, n in enumerate(shape)],
        lambda *p: env.same(env.value(got, *p), before(*address(sels, p))), label + ": elements")


def check_written(env, data, before, sels, expect, label):
    def body(*p):
        if addressed(env, sels, p):
            idx = [(i - s.start) // s.step if s.step > 1 else i - s.start if s.step > 0 else (s.start - i) // -s.step
                   for i, s in zip(p, sels) if s.n is not None]
            return env.same(env.value(data, *p), expect(*idx))
        return env.same(env.value(data, *p), before(*p))

    env.check_forall([(f"p{k}", 0, n) for k, n in enumerate(data.shape)], body, label)


def check_access(env, cfg, view, index, sels, data, before, label):
    got = view[index]
    check_read(env, got, sels, before, label)
    shape = dims_of(sels)
    how = cfg.get("write", "array")
    if how == "scalar" or not shape:
        view[index] = 5.0
        check_written(env, data, before, sels, lambda *i: 5.0, label + ": scalar write")
    elif how == "through":
        got[...] = 5.0
        check_written(env, data, before, sels, lambda *i: 5.0, label + ": write through what was read")
    else:
        val = env.array("val", shape, cfg.get("dtype", "float64"))
        vb = env.snapshot(val)
        view[index] = val
        check_written(env, data, before, sels, vb, label + ": array write")


def ask_others(env, cfg, dims, origin, extent, shape, look):
    """The same indices on another quantity of the same dimensions, elsewhere in a larger array,
    and a look at one of the reversed dimensions."""
    other = env.array("twin", [n + 3 for n in shape], "float32")
    q = env.util.Quantity(other, tuple(dims), "twin", origin=tuple(o + 1 for o in origin), extent=tuple(extent))
    look(q)
    if len(dims) > 1:
        env.util.Quantity(other.T, tuple(dims)[::-1], UNITS).view[:]


def run_view(env, cfg):
    dims = cfg["dims"]
    q, data, origin, extent, shape = quantity(env, "q", dims, cfg)
    before = env.snapshot(data)
    index, sels = [], []
    for k, form in enumerate(cfg["forms"]):
        e, s = entry(env, k, form, origin[k], origin[k], -9, 60, origin[k], extent[k], shape[k], cfg.get("npint"))
        index.append(e)
        sels.append(s)
    for k in range(len(cfg["forms"]), len(dims)):
        sels.append(Sel(origin[k], extent[k]))
    index = index[0] if cfg.get("bare") else list(index) if cfg.get("list") else tuple(index)
    if cfg.get("history"):
        ask_others(env, cfg, dims, origin, extent, shape, lambda t: t.view[index])
    if cfg.get("sel"):
        named = {d: index[k] for k, d in enumerate(dims) if k in cfg["sel"]}
        sels = [s if k in cfg["sel"] else Sel(origin[k], extent[k]) for k, s in enumerate(sels)]
        check_read(env, q.sel(**named), sels, before, "selection by name")
    else:
        check_access(env, cfg, q.view, index, sels, data, before, "view")
    env.cover("view")


def run_toomany(env, cfg):
    q, data, origin, extent, shape = quantity(env, "q", cfg["dims"], cfg)
    before = env.snapshot(data)
    view = getattr(q.view, cfg["corner"]) if cfg.get("corner") else q.view
    index = tuple([slice(0, 1), 0][k % 2] for k in range(len(cfg["dims"]) + 1))
    for op in ("read", "write"):
        try:
            if op == "read":
                view[index]
            else:
                view[index] = 1.0
        except IndexError:
            pass
        else:
            env.fail("too many indices are an IndexError", op)
    check_unchanged(env, data, before, "too many indices change nothing")
    env.cover("too many indices")


def check_unchanged(env, data, before, label):
    env.check_forall([(f"p{k}", 0, n) for k, n in enumerate(data.shape)],
                     lambda *p: env.same(env.value(data, *p), before(*p)), label)


def run_zerod(env, cfg):
    data = env.array("a", ())
    before = env.snapshot(data)
    q = env.util.Quantity(data, (), "kg")
    for view in (q.view, q.view.northwest, q.view.interior):
        for index in (slice(None), ()):
            got = view[index]
            env.check(env.same(env.value(got), before()), "a quantity without dimensions reads its value")
            env.check(got.shape == (), "a quantity without dimensions reads its value")
        for index in ((0,), (slice(None),), slice(0, 1)):
            try:
                view[index]
            except IndexError:
                continue
            env.fail("indexing a quantity without dimensions is an IndexError", str(index))
    for k, (view, index) in enumerate(itertools.product((q.view, q.view.southeast, q.view.interior), (slice(None), ()))):
        view[index] = 3.25 + k
        env.check(env.same(env.value(data), 3.25 + k), "a write through the view of a quantity without dimensions")
    for view in (q.view, q.view.northwest):
        for index in ((0,), slice(0, 1), 0):
            try:
                view[index] = 1.0
            except IndexError:
                continue
            env.fail("indexing a quantity without dimensions is an IndexError", str(index))
    env.check(env.same(env.value(data), 8.25), "a refused write changes nothing")
    env.cover("no dimensions")


AT_START = {"northwest": {"x": True, "y": False}, "northeast": {"x": False, "y": False},
            "southwest": {"x": True, "y": True}, "southeast": {"x": False, "y": True}}


def run_corner(env, cfg):
    dims = cfg["dims"]
    q, data, origin, extent, shape = quantity(env, "q", dims, cfg)
    before = env.snapshot(data)
    name = cfg["corner"]
    index, sels = [], []
    for k, form in enumerate(cfg["forms"]):
        d = ax(dims[k])
        first, past = origin[k], origin[k] + extent[k]
        if name == "interior":
            sb, eb = first, past
        elif d in ("x", "y") and not AT_START[name][d]:
            sb = eb = past
        else:
            sb = eb = first
        e, s = entry(env, k, form, sb, eb, -60, 60, first, extent[k], shape[k], cfg.get("npint"))
        index.append(e)
        sels.append(s)
    for k in range(len(cfg["forms"]), len(dims)):
        sels.append(Sel(origin[k], extent[k]))
    index = index[0] if cfg.get("bare") else list(index) if cfg.get("list") else tuple(index)
    view = getattr(q.view, name)
    if cfg.get("history"):
        ask_others(env, cfg, dims, origin, extent, shape, lambda t: getattr(t.view, name)[index])
        for c in list(AT_START) + ["interior"]:
            getattr(q.view, c)
            q.view[()]
    if cfg.get("sel"):
        named = {d: index[k] for k, d in enumerate(dims) if k in cfg["sel"]}
        sels = [s if k in cfg["sel"] else Sel(origin[k], extent[k]) for k, s in enumerate(sels)]
        check_read(env, view.sel(**named), sels, before, name + ": selection by name")
    else:
        check_access(env, cfg, view, index, sels, data, before, name)
    env.cover(name)


GROUPS = {"x": "X_DIMS", "y": "Y_DIMS", "z": "Z_DIMS"}


def run_transpose(env, cfg):
    u = env.util
    dims = cfg["dims"]
    q, data, origin, extent, shape = quantity(env, "q", dims, cfg)
    before = env.snapshot(data)
    backwards = u.Quantity(data.T, tuple(dims)[::-1], "twin", origin=origin[::-1], extent=extent[::-1])

    def wanted(perm):
        target = []
        for k in perm:
            d = dims[k]
            if cfg.get("groups") and d in getattr(u, GROUPS.get(d[0], "X_DIMS")):
                g = getattr(u, GROUPS[d[0]])
                target.append({"list": list, "tuple": tuple, "set": set, "iter": iter}[cfg["groups"]](g))
            else:
                target.append(d)
        return target

    for perm in itertools.permutations(range(len(dims))):
        backwards.transpose(wanted(perm))  # what was asked before must not matter
        target = wanted(perm)
        t = q.transpose(tuple(target) if cfg.get("tuple") else target)
        env.check(tuple(t.dims) == tuple(dims[k] for k in perm), "transpose: dimensions in the requested order",
                  lambda: f"{t.dims}")
        env.check(t.units == UNITS, "transpose: units kept")
        env.check(t.data.dtype == data.dtype, "transpose: element type kept")
        for i, k in enumerate(perm):
            env.check(t.origin[i] == origin[k], "transpose: origin moves with its dimension", lambda: f"{perm}")
            env.check(t.extent[i] == extent[k], "transpose: extent moves with its dimension", lambda: f"{perm}")
            env.check(t.data.shape[i] == shape[k], "transpose: shape moves with its dimension", lambda: f"{perm}")
        env.check_forall(
            [(f"p{k}", 0, n) for k, n in enumerate(shape)],
            lambda *p: env.same(env.value(t.data, *[p[k] for k in perm]), before(*p)),
            "transpose: elements stay with their named position", lambda: f"{perm}")
    # shared data: a write to the last one is seen in the original, at its place
    where = [env.int(f"w{k}", 0, 60) for k in range(len(dims))]
    env.assume(env.And(*[w < s for w, s in zip(where, shape)]))
    t.data[tuple(where[k] for k in perm)] = 5.0

    def body(*p):
        if env.And(*[a == b for a, b in zip(p, where)]):
            return env.same(env.value(q.data, *p), 5.0)
        return env.same(env.value(q.data, *p), before(*p))

    env.check_forall([(f"p{k}", 0, n) for k, n in enumerate(shape)], body, "transpose: data is shared, not copied")
    env.check(tuple(q.dims) == tuple(dims), "transpose: the original keeps its dimensions")
    for k in range(len(dims)):
        env.check(env.And(q.origin[k] == origin[k], q.extent[k] == extent[k]), "transpose: the original is as it was")
    env.cover("transpose")


def run_badtarget(env, cfg):
    u = env.util
    q, data, origin, extent, shape = quantity(env, "q", cfg["dims"], cfg)
    before = env.snapshot(data)
    for target in cfg["targets"]:
        target = [getattr(u, t) if t.isupper() else t for t in target]
        try:
            q.transpose(target)
        except ValueError:
            continue
        env.fail("absent or ambiguous targets are a ValueError", str(target))
    check_unchanged(env, data, before, "a refused transpose changes nothing")
    env.check(tuple(q.dims) == tuple(cfg["dims"]), "a refused transpose changes nothing")
    env.cover("refused")


SIDES = {"WEST": ("W",), "EAST": ("E",), "NORTH": ("N",), "SOUTH": ("S",), "NORTHWEST": ("N", "W"),
         "NORTHEAST": ("N", "E"), "SOUTHWEST": ("S", "W"), "SOUTHEAST": ("S", "E")}


def run_edge(env, cfg):
    import importlib

    u = env.util
    boundary = importlib.import_module("fv3gfs.util.boundary")
    side = cfg["side"]
    b = boundary.SimpleBoundary(from_rank=0, to_rank=1, n_clockwise_rotations=0,
                                boundary_type=getattr(u, side))
    for rep in range(cfg.get("repeat", 1)):
        q, data, origin, extent, shape = quantity(env, f"q{rep}", cfg["dims"], cfg, pad=9, nmax=20)
        if cfg.get("mixed"):  # what was asked before: reversed dimensions, other staggering, another width, the other band
            for dims in (list(cfg["dims"])[::-1], [d[:-10] if d.endswith("_interface") else d + "_interface" for d in cfg["dims"]]):
                t = u.Quantity(env.array("t" + "".join(dims), [20] * len(dims), "float32"), tuple(dims), "K",
                               origin=(4,) * len(dims), extent=(11,) * len(dims))
                for m in (1, 2, 3):
                    b.send_view(t, m), b.recv_view(t, m)
        n = env.int("width", 1, 8) if rep == 0 else n  # noqa
        for interior in cfg.get("which", [True, False]):
            before = env.snapshot(data)
            sels, fits = [], []
            for k, d in enumerate(cfg["dims"]):
                o, e = origin[k], extent[k]
                if ax(d) == "x" and "W" in SIDES[side] or ax(d) == "y" and "S" in SIDES[side]:
                    at = o + (1 if interior and d.endswith("interface") else 0)
                    s, n1 = (at if interior else at - n), n
                elif ax(d) == "x" and "E" in SIDES[side] or ax(d) == "y" and "N" in SIDES[side]:
                    at = o + e - (1 if interior and d.endswith("interface") else 0)
                    s, n1 = (at - n if interior else at), n
                else:
                    s, n1 = o, e
                sels.append(Sel(s, n1))
                fits.append(env.And(s >= 0, s + n1 <= shape[k]))
            ok = env.And(*fits)
            label = "interior band" if interior else "exterior band"
            try:
                got = (b.send_view if interior else b.recv_view)(q, n)
            except u.OutOfBoundsError:
                env.check(env.Not(ok), label + ": refused only if it does not fit")
                env.cover("out of bounds")
                continue
            env.check(ok, label + ": refused if it does not fit in the array")
            check_read(env, got, sels, before, label)
            got[...] = 5.0
            check_written(env, data, before, sels, lambda *i: 5.0, label + " is a view of the data")
            env.cover(label)


def run_construct(env, cfg):
    u = env.util
    nd = cfg["nd"]
    dims = tuple(f"d{k}" for k in range(nd))
    shape, origin, extent = [], [], []
    for k in range(nd):
        big = cfg.get("big", 1)
        o, n, t = env.int(f"o{k}", 0, 4 * big), env.int(f"n{k}", 0 if cfg.get("empty") else 1, 12 * big), env.int(f"t{k}", 0, 4 * big)
        shape.append(o + n + t), origin.append(o), extent.append(n)
    data = env.array("a", shape, cfg.get("dtype", "float64"), cfg.get("order", "C"))
    before = env.snapshot(data)
    kw = {}
    seq = {"list": list, "tuple": tuple}[cfg.get("seq", "tuple")]
    wrap = env.npint if cfg.get("npint") else lambda v: v
    if "origin" in cfg["give"]:
        kw["origin"] = seq([wrap(v) for v in origin])
    if "extent" in cfg["give"]:
        kw["extent"] = seq([wrap(v) for v in extent])
    given = seq(dims)
    q = u.Quantity(data, given, cfg.get("units", "m/s"), **kw)
    for seqs in (given, kw.get("origin"), kw.get("extent")):  # what the caller gave stays the caller's
        if isinstance(seqs, list):
            seqs.reverse()
            seqs.append(7)
    eo = origin if "origin" in kw else [0] * nd
    ee = extent if "extent" in kw else [s - o for s, o in zip(shape, eo)]
    env.check(q.data is data, "a quantity refers to the array it was given")
    env.check(q.dims == dims, "dimensions as given")
    env.check(q.units == cfg.get("units", "m/s"), "units as given")
    env.check(q.metadata.dtype == data.dtype, "element type of the array")
    env.check(q.attrs["units"] == cfg.get("units", "m/s"), "units as given")
    q.attrs["units"], q.attrs["more"] = "changed", 1
    q.metadata.dim_lengths.clear()
    env.check(q.attrs.get("units") == cfg.get("units", "m/s") == q.units, "changing what attrs returned does not change the quantity")
    env.check(len(q.origin) == nd and len(q.extent) == nd, "one origin and extent per dimension")
    env.check(isinstance(q.origin, tuple) and isinstance(q.extent, tuple) and isinstance(q.dims, tuple),
              "metadata are tuples")
    for k in range(nd):
        env.check(q.origin[k] == eo[k], "origin as given, or zero", lambda: f"{q.origin}")
        env.check(q.extent[k] == ee[k], "extent as given, or the rest of the array", lambda: f"{q.extent}")
        env.check(q.metadata.dim_lengths[dims[k]] == ee[k], "length of each named dimension")
        env.check(env.And(q.view.origin[k] == eo[k], q.view.extent[k] == ee[k]), "the view has the quantity's geometry")
    sels = [Sel(o, e) for o, e in zip(eo, ee)]
    da = q.data_array
    env.check(tuple(da.dims) == dims, "labelled array: dimensions")
    env.check(da.attrs["units"] == cfg.get("units", "m/s"), "labelled array: units")
    check_read(env, da.values if nd else da.values[()], sels, before, "labelled array")
    back = u.Quantity.from_data_array(da)
    env.check(back.dims == dims and back.units == cfg.get("units", "m/s"), "from a labelled array: dimensions and units")
    env.check(all(bool(o == 0) for o in back.origin), "from a labelled array: default origin")
    check_read(env, back.data if nd else back.data[()], sels, before, "from a labelled array")
    for k in range(nd):
        env.check(back.extent[k] == ee[k], "from a labelled array: default extent")
    v = q.values
    check_read(env, v if nd else v[()], sels, before, "values")
    try:
        v[...] = 1.0
    except ValueError:
        pass
    else:
        env.fail("values cannot be written")
    check_unchanged(env, data, before, "conversions leave the data as it was")
    if cfg.get("empty") and not bool(env.And(*[e > 0 for e in ee])):
        env.cover("constructed without points")
        return
    if nd:
        q.view[tuple(0 for _ in range(nd))] = 5.0
        env.check(env.same(env.value(data, *eo), 5.0), "data can be written after conversions")
    else:
        q.view[()] = 5.0
        env.check(env.same(env.value(data), 5.0), "data can be written after conversions")
    env.cover("constructed")


def run_fromlabelled(env, cfg):
    u = env.util
    nd = 2
    o = [env.int(f"o{k}", 0, 4) for k in range(nd)]
    n = [env.int(f"n{k}", 1, 12) for k in range(nd)]
    t = [env.int(f"t{k}", 0, 4) for k in range(nd)]
    data = env.array("a", [a + b + c for a, b, c in zip(o, n, t)])
    before = env.snapshot(data)
    if env.symbolic:
        DA = DataArray
    else:
        from xarray import DataArray as DA
    da = DA(data, dims=["y", "x"], attrs={"units": "kg", "long_name": "n"})
    q = u.Quantity.from_data_array(da, origin=tuple(o), extent=tuple(n))
    env.check(q.dims == ("y", "x") and q.units == "kg", "from a labelled array: dimensions and units")
    for k in range(nd):
        env.check(env.And(q.origin[k] == o[k], q.extent[k] == n[k]), "from a labelled array: origin and extent as given")
    check_read(env, q.view[:], [Sel(a, b) for a, b in zip(o, n)], before, "from a labelled array")
    try:
        u.Quantity.from_data_array(DA(data, dims=["y", "x"], attrs={}))
    except ValueError:
        pass
    else:
        env.fail("a labelled array without units is a ValueError")
    env.cover("from a labelled array")


def run_mismatch(env, cfg):
    u = env.util
    nd = cfg["nd"]
    shape = [env.int(f"n{k}", 1, 12) for k in range(nd)]
    data = env.array("a", shape)
    L = {"dims": nd, "origin": nd, "extent": nd}
    L[cfg["bad"]] += cfg["by"]
    names = tuple(f"d{k}" for k in range(L["dims"]))
    og = tuple(env.int(f"o{k}", 0, 3) for k in range(L["origin"]))
    ex = tuple(env.int(f"e{k}", 0, 3) for k in range(L["extent"]))
    kw = {"origin": og, "extent": ex}
    if cfg.get("default"):
        del kw["origin" if cfg["bad"] != "origin" else "extent"]
        if cfg["bad"] == "dims":
            del kw["extent"]
    try:
        u.Quantity(data, names, "m", **kw)
    except ValueError:
        env.cover("mismatch refused")
    else:
        env.fail("lengths that differ from the array's are a ValueError", str(cfg))


def run_noninteger(env, cfg):
    u = env.util
    data = env.array("a", (env.int("n", 1, 12),))
    for bad in ("x", None, "1x"):
        for which in ("origin", "extent"):
            try:
                u.Quantity(data, ("x",), "m", **{"origin": (0,), "extent": (1,), which: (bad,)})
            except (TypeError, ValueError):
                continue
            env.fail("an origin or extent that is not an integer is an error", f"{which} {bad!r}")
    env.cover("non-integers refused")


def run_plain(env, cfg):
    """lists and numbers, which the constructor documents by accepting them"""
    u = env.util
    q = u.Quantity([1.5, 2.5, 3.5], ("x",), "m", origin=(1,))
    env.check(q.extent == (2,) and q.origin == (1,), "a list: extent is the rest of it")
    env.check([float(q.data[k]) for k in range(3)] == [1.5, 2.5, 3.5], "a list: its values")
    env.check(q.data.dtype == "float64", "a list: its element type")
    for given, kind in (([1, 2**62 + 1], "i"), ([True, False], "b"), ([[1, 2], [3, 4]], "i")):
        q = u.Quantity(given, ("x", "y")[:1 if kind == "b" or not isinstance(given[0], list) else 2], "m")
        env.check(q.data.dtype.kind == kind and q.metadata.dtype == q.data.dtype, "a list: its element type", lambda: f"{given} gives {q.data.dtype}")
        env.check(q.data.tolist() == given, "a list: its values", lambda: f"{given} gives {q.data}")
    q = u.Quantity(4, (), "m")
    env.check(int(q.data) == 4 and q.extent == (), "a number: a quantity without dimensions")
    env.cover("plain")


def copied(how, q):
    import copy

    from symx.world import wire

    if how == "deep":
        return copy.deepcopy(q)
    if how == "pickle":
        return wire(q)
    if how == "both":
        return copy.deepcopy(wire(q))
    if how == "state":
        state = copy.deepcopy({"a": q, "time": 3, "b": q})
        return state["a"] if state["a"] is state["b"] else None
    if how == "sent":
        return wire([{"q": q}])[0]["q"]
    raise ValueError(how)


LOOKS = ["northwest", "northeast", "southwest", "southeast", "interior"]


def run_copies(env, cfg):
    """A copy is a quantity like the original, in memory of its own."""
    dims = tuple(cfg["dims"])
    q, data, origin, extent, shape = quantity(env, "q", dims, cfg)
    if cfg.get("turned"):  # a quantity that shares its memory with another
        base = q
        q = q.transpose(list(dims)[::-1])
        dims, origin, extent, shape, data = dims[::-1], origin[::-1], extent[::-1], shape[::-1], q.data
    before = env.snapshot(data)
    xy = sum(ax(d) in "xy" for d in dims) == 2

    def corners(t):
        if xy:
            for name in LOOKS:
                getattr(t.view, name)

    if cfg.get("looked"):
        q.view[:], q.attrs, q.values
        corners(q)
    c = copied(cfg["how"], q)
    if c is None:
        env.fail("what was one quantity in a state is one in its copy")
        return
    if cfg.get("looked"):
        corners(c)
    env.check(c is not q and c.data is not q.data, "a copy is another quantity")
    env.check(type(c) is type(q), "a copy is a quantity")
    env.check(tuple(c.dims) == dims and c.units == UNITS and c.attrs == q.attrs, "a copy has the dimensions, units and attributes")
    env.check(c.metadata.dtype == q.metadata.dtype and c.data.dtype == data.dtype, "a copy has the element type")
    env.check(c.metadata.data_type is q.metadata.data_type and c.np is q.np, "a copy has data of the same kind")
    for k in range(len(dims)):
        env.check(env.And(c.origin[k] == origin[k], c.extent[k] == extent[k], c.data.shape[k] == shape[k]), "a copy has the geometry")
        env.check(env.And(c.view.origin[k] == origin[k], c.view.extent[k] == extent[k]), "a copy's view has the geometry")
    everywhere = [Sel(0, n) for n in shape]
    inside = [Sel(o, n) for o, n in zip(origin, extent)]
    check_read(env, c.data if dims else c.data[()], everywhere, before, "a copy has all the values")
    check_read(env, c.view[:] if dims else c.view[()][()], inside, before, "the view of a copy")
    # what is written through one way of looking shows in the others, and nowhere else
    val = env.array("val", list(extent), cfg.get("dtype", "float64"))
    vb = env.snapshot(val)
    if cfg["write"] == "copy":
        t, other = c, q
    else:
        t, other = q, c
    index = tuple(slice(0, n) for n in extent)
    if cfg["through"] == "view":
        t.view[index if dims else ()] = val if dims else 5.0
    elif cfg["through"] == "interior" and xy:
        t.view.interior[tuple(slice(0, 0) for _ in dims)] = val
    elif cfg["through"] == "transposed" and dims:
        t.transpose(list(dims)[::-1]).view[index[::-1]] = val.T
    else:
        t.data[tuple(slice(o, o + n) for o, n in zip(origin, extent)) if dims else ()] = val if dims else 5.0
    expect = vb if dims else (lambda *i: 5.0)
    check_written(env, t.data, before, inside, expect, "a write shows in the data")
    check_read(env, t.view[:] if dims else t.view[()][()], [Sel(0, n) for n in extent], expect, "a write shows in the view")
    if len(dims) > 1:
        check_read(env, t.transpose(list(dims)[::-1]).view[:], [Sel(0, n) for n in extent[::-1]], lambda *p: expect(*p[::-1]), "a write shows in transposed quantities")
    if xy and env.And(*[n > 0 for n in extent]):
        i = tuple(0 for _ in dims)
        env.check(env.same(t.view.southwest[i], expect(*i)), "a write shows in the corner views")
        i = tuple(-1 if ax(d) in "xy" else 0 for d in dims)
        env.check(env.same(t.view.northeast[i], expect(*[n - 1 if ax(d) in "xy" else 0 for d, n in zip(dims, extent)])), "a write shows in the corner views")
    check_unchanged(env, other.data, before, "a copy has memory of its own")
    check_read(env, other.view[:] if dims else other.view[()][()], inside, before, "a copy has memory of its own")
    if cfg.get("turned"):
        env.check(not env.symbolic or base is not q, "the quantity it came from")
        check_unchanged(env, base.data.T if cfg["write"] == "copy" else c.data, before, "a copy has memory of its own")
    env.cover("copied")


def run(env, cfg):
    globals()["run_" + cfg["kind"]](env, cfg)


def configs(tier, prop):
    out = []
    deep = tier != "quick"

    def add(name, kind, **k):
        k.setdefault("max_models", 12)
        out.append(dict(name=name, kind=kind, **k))

    D4 = ["z", "y", "x", "w"]
    slices = ["".join(p) for p in itertools.product("s-", "s-", ["", "1", "2", "3"])]
    if prop == "C12":
        for f in ["i"] + slices:
            add(f"1d-{f}", "view", dims=["x"], forms=[f], bare=f in ("i", "ss", "--", "s-2"),
                write="scalar" if f.endswith("2") else "through" if f.endswith("3") else "array", max_models=6)
        for f in ["ss-1", "s--1", "-s-1", "---1", "ss-2", "s--3", "-s-2", "---2", "---3"]:
            add(f"1d-{f}", "view", dims=["x"], forms=[f], write="scalar" if f.endswith("2") else "through" if f.endswith("3") else "array", max_models=6, zero=f[:2] in ("ss", "--"), bare=f == "---1")
        for k, (f, g) in enumerate([("---1", "---1"), ("i", "s--1"), ("ss-2", "ss2"), ("--", "---2")]):
            add(f"2d-{f}-{g}", "view", dims=["z", "x_interface"], forms=[f, g], order="CF"[k % 2], write=["array", "through"][k % 2], max_models=6)
        add("1d-any-step", "view", dims=["x"], forms=["ssn"], max_models=40)
        add("1d-open-any-step", "view", dims=["y"], forms=["--n"], bare=True, write="through", max_models=20)
        add("2d-any-step", "view", dims=["x", "y"], forms=["s-n", "i"], write="scalar", order="F", max_models=20)
        add("2d-zero", "view", dims=["y", "x"], forms=["--", "ss"], zero=True)
        add("3d-numpy", "view", dims=["z", "y", "x"], forms=["i", "ss", "s-"], npint=True)
        add("1d-numpy", "view", dims=["y_interface"], forms=["i"], npint=True, bare=True)
        add("sel-numpy", "view", dims=["z", "y", "x"], forms=["i", "i", "ss"], sel=[0, 2], npint=True)
        pairs = [("i", "ss"), ("ss", "i"), ("i", "i"), ("ss", "s-"), ("-s", "ss2"), ("ss3", "-s"), ("--", "ss"),
                 ("i", "--2"), ("ss", "ss")]
        for k, (f, g) in enumerate(pairs):
            add(f"2d-{f}-{g}", "view", dims=["y", "x_interface"], forms=[f, g], order="CF"[k % 2],
                list=k % 3 == 1, write=["array", "scalar", "through"][k % 3], max_models=6)
        add("history-1d", "view", dims=["x"], forms=["ss"], history=True)
        add("history-2d", "view", dims=["y", "x"], forms=["s-", "i"], history=True)
        add("history-2d-F", "view", dims=["y_interface", "x"], forms=["--"], bare=True, history=True, order="F", write="through")
        add("history-sel", "view", dims=["z", "y", "x"], forms=["ss", "i", "i"], sel=[0], history=True)
        add("2d-missing", "view", dims=["y", "x"], forms=["ss"], bare=True)
        add("2d-missing-int", "view", dims=["y", "x"], forms=["i"], bare=True)
        add("3d-missing", "view", dims=["z", "y", "x"], forms=["ss"])
        add("3d", "view", dims=["z", "y", "x"], forms=["i", "ss", "--"], dtype="float32")
        add("3d-ints", "view", dims=["x", "z", "y_interface"], forms=["i", "i", "i"])
        add("4d-missing-1", "view", dims=["tile", "z", "y", "x"], forms=["i", "ss", "s-"], write="through")
        add("4d-missing-2", "view", dims=["x", "y", "z", "tracer"], forms=["ss", "i"])
        add("4d-missing-3", "view", dims=["tile", "z", "y", "x"], forms=["--"], bare=True)
        add("4d-all", "view", dims=["tile", "z_interface", "y", "x"], forms=["i", "-s", "s-", "ss"], order="F")
        add("3d-missing2", "view", dims=["z", "y", "x"], forms=["--", "s-"], write="scalar")
        add("4d", "view", dims=D4, forms=["i", "-s", "i", "s-"])
        add("4d-all", "view", dims=D4, forms=["--"], bare=True)
        add("sel-1", "view", dims=["z", "y", "x"], forms=["ss", "i", "i"], sel=[0])
        add("sel-2", "view", dims=["z", "y", "x"], forms=["i", "i", "s-2"], sel=[1, 2])
        add("sel-3", "view", dims=["x", "y"], forms=["ss", "i"], sel=[0, 1])
        add("sel-0", "view", dims=["x", "y"], forms=["i", "i"], sel=[9])
        add("too-many-1", "toomany", dims=["x"])
        add("too-many-2", "toomany", dims=["y", "x"])
        add("no-dims", "zerod")
        if deep:
            for f in slices:
                for g in slices[::2]:
                    add(f"2d-{f}-{g}", "view", dims=["y", "x"], forms=[f, g], max_models=4)
            for fs in itertools.product(["i", "ss", "-s2", "s-3"], repeat=3):
                add("3d-" + "-".join(fs), "view", dims=["z", "y", "x"], forms=list(fs), max_models=4)
    if prop == "C13":
        for k, c in enumerate(["northwest", "northeast", "southwest", "southeast"]):
            add(f"{c}-steps", "corner", corner=c, dims=["x", "y_interface"], forms=[["ss2", "s--1"], ["---1", "-s3"], ["--2", "ss-2"], ["-s-1", "ss1"]][k], npint=k % 2 == 1)
            add(f"{c}-history", "corner", corner=c, dims=["y", "x_interface"], forms=["ss", "s-"], history=True, write=["array", "scalar"][k % 2])
            add(f"{c}-numpy", "corner", corner=c, dims=["y", "z", "x"], forms=["i", "ss", "i"], npint=True)
            add(f"{c}-xy", "corner", corner=c, dims=["x", "y"], forms=["ss", "ss"])
            add(f"{c}-odd-names", "corner", corner=c, dims=["x_wave", "y"], forms=["ss", "i"])
            add(f"{c}-zyx", "corner", corner=c, dims=["z", "y_interface", "x_interface"], forms=["i", "i", "ss"], write="scalar")
            add(f"{c}-xzy", "corner", corner=c, dims=["x", "z", "y"], forms=["i", "ss", "i"], order="F")
            add(f"{c}-ints", "corner", corner=c, dims=["y", "x"], forms=["i", "i"])
            add(f"{c}-open", "corner", corner=c, dims=["y", "x_interface"], forms=["s-", "-s"], write="through")
            add(f"{c}-missing", "corner", corner=c, dims=["y", "x"], forms=["ss"], bare=True)
            add(f"{c}-sel", "corner", corner=c, dims=["y", "x", "z"], forms=["ss", "i", "i"], sel=[0, 1])
            add(f"{c}-list", "corner", corner=c, dims=["x_interface", "y"], forms=["s-", "i"], list=True)
            add(f"{c}-z-only", "corner", corner=c, dims=["z", "z_soil"], forms=["ss", "i"])
        c = "interior"
        add("interior-xy", "corner", corner=c, dims=["x", "y"], forms=["ss", "ss"])
        add("interior-zyx", "corner", corner=c, dims=["z", "y_interface", "x_interface"], forms=["--", "ss", "-s"], write="scalar")
        add("interior-history", "corner", corner=c, dims=["y", "x_interface"], forms=["ss", "-s"], history=True)
        add("interior-open", "corner", corner=c, dims=["y", "x"], forms=["s-", "-s"], write="through")
        add("interior-steps", "corner", corner=c, dims=["y", "x"], forms=["ss2", "---1"], npint=True)
        add("interior-any-step", "corner", corner=c, dims=["y", "x"], forms=["ss", "ssn"], max_models=30)
        add("northeast-any-step", "corner", corner="northeast", dims=["y", "x"], forms=["-sn", "i"], max_models=30)
        add("southwest-any-step", "corner", corner="southwest", dims=["y", "x"], forms=["ss", "s-n"], max_models=30)
        add("interior-missing", "corner", corner=c, dims=["y", "x"], forms=["ss"], bare=True)
        add("interior-sel", "corner", corner=c, dims=["y", "x", "z"], forms=["ss", "s-", "--"], sel=[0, 1])
        add("interior-3d", "corner", corner=c, dims=["x", "z", "y"], forms=["ss", "--", "-s"], order="F")
        add("too-many", "toomany", dims=["y", "x"], corner="northeast")
        add("too-many-interior", "toomany", dims=["x"], corner="interior")
        if deep:
            for c in ["northwest", "northeast", "southwest", "southeast"]:
                for fs in itertools.product(["i", "ss", "s-", "-s", "--"], repeat=2):
                    add(f"{c}-2d-" + "".join(fs), "corner", corner=c, dims=["y_interface", "x"], forms=list(fs))
                for fs in itertools.product(["i", "ss", "s-"], repeat=3):
                    add(f"{c}-3d-" + "".join(fs), "corner", corner=c, dims=["x", "y_interface", "z"], forms=list(fs))
    if prop == "C14":
        add("1d", "transpose", dims=["x"])
        add("2d", "transpose", dims=["y", "x_interface"], groups="tuple")
        add("2d-list", "transpose", dims=["x", "y_interface"], groups="list", tuple=True, dtype="int32")
        add("3d", "transpose", dims=["z", "y", "x"])
        add("3d-groups", "transpose", dims=["x_interface", "z_interface", "y"], groups="tuple", order="F")
        add("3d-soil", "transpose", dims=["z_soil", "y", "x"], groups="tuple", dtype="float32")
        add("4d", "transpose", dims=["tile", "z", "y", "x"], groups="tuple", tuple=True)
        add("odd-names", "transpose", dims=["x_wave", "y", "xs_interface"], groups="list")
        add("odd-names-2", "transpose", dims=["y2", "x", "z"], groups="tuple")
        add("3d-set", "transpose", dims=["z", "y_interface", "x"], groups="set")
        add("3d-iter", "transpose", dims=["x", "y", "z_interface"], groups="iter")
        add("ambiguous-2d", "badtarget", dims=["x", "x_interface"], targets=[["X_DIMS", "x_interface"], ["x", "X_DIMS"], ["X_DIMS", "X_DIMS"]])
        add("ambiguous-4d", "badtarget", dims=["tile", "y_interface", "x", "y"], targets=[["tile", "Y_DIMS", "X_DIMS", "y_interface"], ["y", "Y_DIMS", "X_DIMS", "tile"]])
        add("absent-1d", "badtarget", dims=["x"], targets=[["y"], ["Y_DIMS"], ["x_interface"]])
        add("absent-2d", "badtarget", dims=["y", "x"], targets=[["y", "Z_DIMS"], ["Y_DIMS", "x_interface"], ["x"], ["z", "x"]])
        add("4d-names", "transpose", dims=["time", "x", "y", "z_interface"])
        add("absent", "badtarget", dims=["z", "y", "x"],
            targets=[["z", "y", "q"], ["z", "Y_DIMS", "x_interface"], ["z_interface", "y", "x"], ["z", "y"], ["x"]])
        add("ambiguous", "badtarget", dims=["x", "x_interface", "y"],
            targets=[["X_DIMS", "y", "x"], ["X_DIMS", "Y_DIMS"], ["x", "X_DIMS", "y"], ["Z_DIMS", "x", "x_interface"],
                     ["x", "x", "y"]])
        if deep:
            add("5d", "transpose", dims=["time", "tile", "z", "y_interface", "x"], groups="list", max_models=4)
    if prop == "C27":
        for s in SIDES:
            add(f"{s}-yx", "edge", side=s, dims=["y", "x"])
            add(f"{s}-zyx-iface", "edge", side=s, dims=["z", "y_interface", "x_interface"], order="F")
            add(f"{s}-xzy-mixed", "edge", side=s, dims=["x_interface", "z_interface", "y"])
            add(f"{s}-mixed-history", "edge", side=s, dims=["y", "x_interface"], mixed=True)
        add("odd-names", "edge", side="SOUTHEAST", dims=["x_wave", "y", "x_interface"])
        add("odd-names-2", "edge", side="NORTH", dims=["y", "ys_interface", "x"])
        add("x-only", "edge", side="NORTHWEST", dims=["x", "z"])
        add("y-only", "edge", side="SOUTHEAST", dims=["z", "y_interface"])
        add("x-only-2", "edge", side="EAST", dims=["x_interface"])
        for s in ("WEST", "NORTH", "SOUTHEAST"):
            add(f"{s}-history", "edge", side=s, dims=["y", "x_interface"], repeat=2, which=[True])
            add(f"{s}-history-out", "edge", side=s, dims=["y_interface", "x"], repeat=2, which=[False])
        if deep:
            for s in SIDES:
                add(f"{s}-4d", "edge", side=s, dims=["tile", "y", "z", "x_interface"])
                add(f"{s}-history2", "edge", side=s, dims=["y", "x"], repeat=2)
    if prop == "C39":
        D = [[], ["x"], ["y", "x"], ["x", "z", "y_interface"], ["z", "y", "x"], ["tile", "x_interface", "z", "y"], ["a", "b"]]
        hows, writes, through = ["deep", "pickle", "both", "state", "sent"], ["copy", "original"], ["view", "data", "transposed", "interior"]
        k = 0
        for a, dims in enumerate(D):
            for b, how in enumerate(hows):
                for c, write in enumerate(writes):
                    for thr in through if deep else [through[(a + b + 2 * c) % 4], through[(a + b + c + 1) % 4]] if len(dims) > 1 else [through[c]]:
                        add(f"{'-'.join(dims) or '0d'} {how} {write} {thr}", "copies", dims=dims, how=how, write=write, through=thr, looked=k % 3 == 0, turned=len(dims) > 1 and k % 4 == 2,
                            order="CF"[k % 2] if dims else "C", dtype=["float64", "float32", "int32"][k % 3])
                        k += 1
    if prop == "C28":
        for nd in range(0, 5):
            for give in (["origin", "extent"], [], ["origin"], ["extent"]):
                if nd in (0, 4) and len(give) == 1:
                    continue
                add(f"{nd}d-{'-'.join(give) or 'none'}", "construct", nd=nd, give=give,
                    seq="list" if nd % 2 else "tuple", order="CF"[nd % 2], dtype=["float64", "float32"][nd % 2])
            for npint in (False, True):
                if nd in (1, 2):
                    add(f"{nd}d-large{'-numpy' if npint else ''}", "construct", nd=nd, give=["origin", "extent"], npint=npint, big=1000 if nd == 1 else 60,
                        seq="tuple", units="  Pa s ", dtype=["int32", "float32"][nd - 1])
        for nd in (1, 2, 3):
            for bad in ("dims", "origin", "extent"):
                for by in (1, -1):
                    add(f"mismatch-{nd}d-{bad}{by:+d}", "mismatch", nd=nd, bad=bad, by=by)
        add("2d-no-units", "construct", nd=2, give=["extent"], units="")
        add("1d-empty", "construct", nd=1, give=["origin"], empty=True)
        add("2d-empty", "construct", nd=2, give=["origin", "extent"], empty=True)
        add("mismatch-default", "mismatch", nd=2, bad="dims", by=1, default=True)
        add("mismatch-default2", "mismatch", nd=2, bad="dims", by=-1, default=True)
        add("mismatch-origin-default", "mismatch", nd=2, bad="origin", by=-1, default=True)
        add("labelled", "fromlabelled")
        add("non-integer", "noninteger")
        add("plain", "plain")
    return out
