"""Model states: nudging (nudging.py) and allocation (initialization/)."""
import datetime
import importlib

from symx.core_shared import Unsupported

BOUNDS = {
    "C21": "one to three nudged variables of up to three dimensions, sizes 1..40 with paddings 0..6 that differ between state and reference, time step "
    "and timescales any whole number of milliseconds up to 10^9 (timescales positive), all values arbitrary real numbers",
    "C22": "layouts up to 8x8, up to 64 cells per rank, halo widths 0..8, up to 128 levels, extra dimensions up to 32, every rank; up to four dimensions, "
    "every staggering, in any order",
}
OUTSIDE = {
    "C21": "rounding of floating-point arithmetic; integer-valued states; zero or negative timescales; quantities of different units or dimension order in state and reference",
    "C22": "tiles that do not divide evenly by the layout; gt4py storages",
}
ASSUMPTIONS = ["values are compared in exact arithmetic (replays compare to 1e-6)"]


class TD:
    """a stand-in for datetime.timedelta over a symbolic number of milliseconds"""

    def __init__(self, days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
        if microseconds:
            raise Unsupported("microseconds of a timedelta")
        self.ms = milliseconds + 1000 * (seconds + 60 * minutes + 3600 * hours + 86400 * (days + 7 * weeks))

    def total_seconds(self):
        return self.real() / 1000

    def real(self):
        from symx.core import SymReal

        return SymReal.of(self.ms)

    @property
    def days(self):
        return self.ms // 86400000

    @property
    def seconds(self):
        return self.ms % 86400000 // 1000

    @property
    def microseconds(self):
        return self.ms % 1000 * 1000

    def __truediv__(self, o):
        if isinstance(o, TD):
            return self.real() / o.real()
        raise Unsupported("timedelta / number")

    def __floordiv__(self, o):
        if isinstance(o, TD):
            return self.ms // o.ms
        raise Unsupported("timedelta // number")

    def __mod__(self, o):
        return TD(milliseconds=self.ms % o.ms)

    def __add__(self, o):
        return TD(milliseconds=self.ms + o.ms)

    def __sub__(self, o):
        return TD(milliseconds=self.ms - o.ms)

    def __mul__(self, o):
        if isinstance(o, int):
            return TD(milliseconds=self.ms * o)
        raise Unsupported("timedelta * number")

    __rmul__ = __mul__

    def __neg__(self):
        return TD(milliseconds=-self.ms)

    def __abs__(self):
        return TD(milliseconds=abs(self.ms))

    def __eq__(self, o):
        return isinstance(o, TD) and self.ms == o.ms

    def __lt__(self, o):
        return self.ms < o.ms

    def __le__(self, o):
        return self.ms <= o.ms

    def __gt__(self, o):
        return self.ms > o.ms

    def __ge__(self, o):
        return self.ms >= o.ms

    def __bool__(self):
        return bool(self.ms != 0)

    def __hash__(self):
        return 774


def stubs(ctx, cfg):
    from symx import loader

    if not cfg["kind"].startswith("nudg"):
        return {}
    return {"datetime": loader.StubModule("datetime", {"timedelta": TD, "datetime": datetime.datetime})}


def span(env, name, lo, hi):
    ms = env.int(name, lo, hi)
    if env.symbolic:
        return TD(milliseconds=ms), TD(milliseconds=ms).total_seconds()
    td = datetime.timedelta(milliseconds=ms)
    return td, td.total_seconds()


def quantity(env, name, dims, ext, units, attrs=None):
    o = [env.int(f"{name}_o{d}", 0, 6) for d in dims]
    t = [env.int(f"{name}_t{d}", 0, 6) for d in dims]
    data = env.array(name, [a + e + b for a, e, b in zip(o, ext, t)])
    return env.util.Quantity(data, dims, units, origin=o, extent=ext)


def unchanged(env, q, before, label, who):
    env.check_forall([(f"p{i}", 0, s) for i, s in enumerate(q.data.shape)],
                     lambda *p: env.same(env.value(q.data, *p), before(*p)), label, who)


VARS = {
    "a": (["y", "x"], "degK"), "b": (["z", "y_interface", "x"], "m/s"), "c": (["x"], ""), "d": (["y", "x"], "Pa"), "s": ([], "m"),
}


def setup(env, cfg):
    ext = {d: env.int("e" + d, 1, 40) for d in sorted({d for v in cfg["vars"] for d in VARS[v][0]})}
    state, ref, before = {}, {}, {}
    for v in cfg["vars"]:
        dims, units = VARS[v]
        e = [ext[d] for d in dims]
        state[v] = quantity(env, "s_" + v, dims, e, units)
        if v not in cfg.get("norefs", []):
            ref[v] = quantity(env, "r_" + v, dims, e, units)
    for tag, st in (("s", state), ("r", ref)):
        for v, q in st.items():
            before[tag, v] = env.snapshot(q.data)
    if cfg.get("time"):
        state["time"], ref["time"] = 1, 2
    return state, ref, before


def run_nudge(env, cfg):
    env.specials = False  # sums and products need not agree on what is not finite
    mod = importlib.import_module("fv3gfs.util.nudging")
    state, ref, before = setup(env, cfg)
    taus, secs = {}, {}
    for v in cfg["nudged"]:
        taus[v], secs[v] = span(env, "tau_" + v, 1, 10**9)
    dt, dts = span(env, "dt", 0, 10**9)
    if cfg.get("again"):  # nudged before: first others under the same names, then these
        tens = {v: VARS[v] for v in cfg["nudged"]}
        others = [{v: quantity(env, f"{w}_{v}", d, [3] * len(d), "other") for v, (d, _) in tens.items()} for w in ("x", "y")]
        early = {v: span(env, "early_" + v, 1, 10**9)[0] for v in cfg["nudged"]}
        mod.apply_nudging(*others, early, dt)
        if cfg["again"] == "same":
            mod.apply_nudging(state, ref, early, span(env, "early", 0, 10**9)[0])
            for st in (state, ref):
                for v in cfg["nudged"]:
                    a = st[v].data
                    a[...] = env.array(("s" if st is state else "r") + v + "_now", a.shape)
            for tag, st in (("s", state), ("r", ref)):
                for v, q in st.items():
                    before[tag, v] = env.snapshot(q.data)
    keys = list(state)
    if cfg.get("only"):
        tend = mod.get_nudging_tendencies(state, ref, taus)
    else:
        tend = mod.apply_nudging(state, ref, taus, dt)
    env.check(list(state) == keys and set(tend) == set(cfg["nudged"]), "tendencies are given for exactly the nudged variables")
    for v in cfg["vars"]:
        q, who = state[v], (lambda v=v: v)
        dims, units = VARS[v]
        if v in ref:
            unchanged(env, ref[v], before["r", v], "the reference is unchanged", who)
        if v not in taus or cfg.get("only"):
            unchanged(env, q, before["s", v], "a variable that is not nudged is unchanged", who)
        if v not in taus:
            continue
        r, t = ref[v], tend[v]
        env.check(tuple(t.dims) == tuple(dims), "a tendency has the variable's dimensions", who)
        env.check(t.units == units + " s^-1", "a tendency has the variable's units per second", lambda: t.units)
        env.check(q.units == units and tuple(q.dims) == tuple(dims), "a nudged variable keeps its metadata", who)
        for x, y in zip(t.extent, q.extent):
            env.check(x == y, "a tendency has the variable's extent", who)
        env.check(not env.shares(t.data, q.data) and not env.shares(t.data, r.data), "a tendency has its own data", who)

        def diff(*p):
            at = lambda z, tag: before[tag, v](*[i + o for i, o in zip(p, z.origin)])  # noqa
            return (at(r, "r") - at(q, "s")) / secs[v]

        env.check_forall([(f"p{i}", 0, s) for i, s in enumerate(q.extent)],
                         lambda *p: env.close(env.value(t.data, *[i + o for i, o in zip(p, t.origin)]), diff(*p)),
                         "a tendency is the difference from the reference over the timescale", who)
        if cfg.get("only"):
            continue

        def after(*p):
            if not all(bool(i >= o) and bool(i < o + e) for i, o, e in zip(p, q.origin, q.extent)):
                return env.same(env.value(q.data, *p), before["s", v](*p))
            return env.close(env.value(q.data, *p),
                             before["s", v](*p) + dts * diff(*[i - o for i, o in zip(p, q.origin)]))

        env.check_forall([(f"p{i}", 0, s) for i, s in enumerate(q.data.shape)], after,
                         "nudging adds the tendency times the time step to the compute domain only", who)
    env.cover("nudged")


def run_nudge_missing(env, cfg):
    mod = importlib.import_module("fv3gfs.util.nudging")
    state, ref, before = setup(env, cfg)
    taus = {v: span(env, "tau_" + v, 1, 10**9)[0] for v in cfg["nudged"]}
    dt, _ = span(env, "dt", 0, 10**9)
    try:
        mod.apply_nudging(state, ref, taus, dt)
    except (KeyError, ValueError):
        pass
    else:
        env.fail("nudging a missing variable is an error")
    for v in cfg["vars"]:
        unchanged(env, state[v], before["s", v], "a refused nudging changes nothing", lambda: v)
    env.check(set(state) == set(cfg["vars"]), "a refused nudging changes nothing")
    env.cover("refused")


# -- allocation


def sizer(env, cfg):
    init = importlib.import_module("fv3gfs.util.initialization")
    ly, lx = env.int("ly", 1, 8), env.int("lx", 1, 8)
    cy, cx = env.int("cy", 1, 64), env.int("cx", 1, 64)
    nz = env.int("nz", 1, 128)
    j, i = env.int("j", 0, ly - 1), env.int("i", 0, lx - 1)
    rank = j * lx + i
    extra = {}
    kw = {}
    if cfg.get("partitioner"):
        kw["tile_partitioner"] = env.util.TilePartitioner((ly, lx))
    if cfg.get("rank"):
        kw["tile_rank"] = rank
    if cfg["make"] == "namelist":
        h = 3
        nml = {"fv_core_nml": {"layout": [ly, lx], "npx": lx * cx + 1, "npy": ly * cy + 1, "npz": nz, "ntiles": 6}}
        s = init.SubtileGridSizer.from_namelist(nml, **kw)
        for part in (env.util.TilePartitioner.from_namelist(nml), env.util.CubedSpherePartitioner.from_namelist(nml).tile):
            env.check(isinstance(part, env.util.TilePartitioner) and len(part.layout) == 2, "partitioners built from a namelist have its layout")
            env.check(env.And(part.layout[0] == ly, part.layout[1] == lx, part.total_ranks == lx * ly), "partitioners built from a namelist have its layout")
        cube = env.util.CubedSpherePartitioner.from_namelist(nml)
        env.check(env.And(cube.layout[0] == ly, cube.layout[1] == lx, cube.total_ranks == 6 * lx * ly), "partitioners built from a namelist have its layout")
        env.check(nml == {"fv_core_nml": {"layout": [ly, lx], "npx": lx * cx + 1, "npy": ly * cy + 1, "npz": nz, "ntiles": 6}}, "the namelist stays as it was")
    else:
        h = env.int("h", 0, 8)
        extra = {d: env.int(d, 1, 32) for d in ("z_soil", "band", "x_wave", "y2", "tiles_interface")}
        args = (lx * cx, ly * cy, nz, h, extra, (ly, lx))
        if cfg["make"] == "tile":
            s = init.SubtileGridSizer.from_tile_params(*args, **kw)
        else:
            names = ("nx_tile", "ny_tile", "nz", "n_halo", "extra_dim_lengths", "layout")
            s = init.SubtileGridSizer.from_tile_params(**dict(zip(names, args)), **kw)
    part = env.util.TilePartitioner((ly, lx))
    full = {"x": lx * cx, "x_interface": lx * cx + 1, "y": ly * cy, "y_interface": ly * cy + 1, "z": nz, "z_interface": nz + 1, **extra}
    return s, part, rank, full, {"h": h, "cx": cx, "cy": cy, "nz": nz, "extra": dict(extra)}


HORIZ = ("x", "x_interface", "y", "y_interface")


def expected_extent(d, g):
    if d in g["extra"]:
        return g["extra"][d]
    base = {"x": g["cx"], "y": g["cy"], "z": g["nz"]}
    return base[d.replace("_interface", "")] + (1 if d.endswith("_interface") else 0)


def geometry(env, dims, origin, extent, shape, g, label):
    for d, o, e, s in zip(dims, origin, extent, shape):
        who = lambda: f"{d}: origin {o}, extent {e}, shape {s}"  # noqa
        env.check(o == (g["h"] if d in HORIZ else 0), label + ": the origin is the halo width in horizontal dimensions, else zero", who)
        env.check(e == expected_extent(d, g), label + ": the extent is the rank's share", who)
        env.check(s >= o + e + (g["h"] if d in HORIZ else 0), label + ": the array has room for the halo on both sides", who)
    env.check(len(origin) == len(extent) == len(shape) == len(dims), label + ": one entry for each dimension")


def twin(d):
    if d in ("x", "y", "z"):
        return d + "_interface"
    return d[0] if d in ("x_interface", "y_interface", "z_interface") else d


# types as callers write them: numpy's by name, Python's own, one given as a string
BUILTIN = {"int": int, "float": float, "bool": bool}


def run_alloc(env, cfg):
    init = importlib.import_module("fv3gfs.util.initialization")
    s, part, rank, full, g = sizer(env, cfg)
    if cfg.get("others"):  # sizers of other grids are asked first
        ly, lx, nz = env.int("ly_", 1, 8), env.int("lx_", 1, 8), env.int("nz_", 1, 128)
        more = {k: v + 2 for k, v in g["extra"].items()}
        for t in (init.SubtileGridSizer.from_tile_params(lx * (g["cx"] + 1), ly * (g["cy"] + 2), nz + 1, g["h"] + 1, more, (ly, lx)),
                  init.SubtileGridSizer.from_tile_params(ly * g["cx"], lx * g["cy"], nz, g["h"] + 2, more, (lx, ly))):
            for dims in cfg["dims"]:
                for ds in (dims.split(), dims.split()[::-1], [twin(d) for d in dims.split()]):
                    t.get_origin(ds), t.get_extent(ds), t.get_shape(ds)
                    s.get_origin(ds[::-1]), s.get_extent(ds[::-1]), s.get_shape(ds[::-1])
                    init.QuantityFactory(t, env.np).zeros(ds, "other", dtype=env.np.float32)
    for dims in cfg["dims"]:
        dims = dims.split()
        origin, extent, shape = s.get_origin(dims), s.get_extent(dims), s.get_shape(dims)
        geometry(env, dims, origin, extent, shape, g, "sizer")
        for x, y in zip(shape, s.get_shape([twin(d) for d in dims])):
            env.check(x == y, "centred and interface variables have arrays of one shape", lambda: dims)
        sl = part.subtile_slice(rank, dims, [full[d] for d in dims], overlap=True)
        for d, x, e in zip(dims, sl, extent):
            env.check(x.stop - x.start == e, "the sizer agrees with the partitioner", lambda: d)
        f = init.QuantityFactory(s, env.np)
        for how in ("empty", "zeros", "ones"):
            for dtype in cfg.get("dtypes", ["float64"]):
                who = lambda: f"{how} {dims} {dtype}"  # noqa
                if dtype is None:
                    q = getattr(f, how)(dims, "m")
                else:
                    q = getattr(f, how)(dims, "m", dtype=BUILTIN.get(dtype) or (dtype if dtype == "int16" else getattr(env.np, dtype)))
                geometry(env, dims, q.origin, q.extent, q.data.shape, g, "factory")
                env.check(tuple(q.dims) == tuple(dims) and q.units == "m", "a new quantity has the requested dimensions and units", who)
                env.check(q.data.dtype == env.np.dtype(BUILTIN.get(dtype, dtype or "float64")), "a new quantity has the requested element type", who)
                for x, y in zip(q.data.shape, shape):
                    env.check(x == y, "a new quantity has the sizer's shape", who)
                if how != "empty":
                    val = 1.0 if how == "ones" else 0.0
                    env.check_forall([(f"p{i}", 0, n) for i, n in enumerate(q.data.shape)],
                                     lambda *p: env.same(env.value(q.data, *p) + 0.0, val), "a new quantity is filled as requested", who)
                q2 = getattr(f, how)(dims, "m")
                env.check(not env.shares(q.data, q2.data), "new quantities have their own data", who)
    env.check(all(bool(g["extra"][k] == v) for k, v in s.extra_dim_lengths.items()) and len(s.extra_dim_lengths) == len(g["extra"]),
              "making quantities leaves the sizer as it was")
    env.cover("allocated")


def run_alloc_unknown(env, cfg):
    init = importlib.import_module("fv3gfs.util.initialization")
    s, *_ = sizer(env, cfg)
    f = init.QuantityFactory(s, env.np)
    for how in ("empty", "zeros", "ones"):
        try:
            getattr(f, how)(["y", "x", "nowhere"], "m")
        except (KeyError, ValueError):
            continue
        env.fail("an unknown dimension is an error")
    env.cover("unknown")


def run(env, cfg):
    globals()["run_" + cfg["kind"]](env, cfg)


def configs(tier, prop):
    out = []
    deep = tier != "quick"

    def add(name, kind, **k):
        k.setdefault("max_models", 16)
        out.append(dict(name=name, kind=kind, **k))

    if prop == "C21":
        for name, vs, nud, kw in [
            ("one", "a", "a", {}), ("scalar", "s", "s", {}), ("1d", "c", "c", {}), ("3d", "b", "b", {}),
            ("one of two", "ad", "a", {"time": True}), ("two", "ad", "da", {"time": True}), ("none", "a", "", {}),
            ("mixed", "abc", "cb", {"norefs": ["a"]}),
        ]:
            add(name, "nudge", vars=list(vs), nudged=list(nud), **kw)
        add("after others", "nudge", vars=["a", "d"], nudged=["a"], again="others")
        add("again", "nudge", vars=["a", "c"], nudged=["c", "a"], again="same")
        add("tendencies only", "nudge", vars=["a", "c"], nudged=["a", "c"], only=True)
        add("not in the state", "nudge_missing", vars=["a", "c"], nudged=["a", "zz"])
        add("not in the reference", "nudge_missing", vars=["a", "c"], nudged=["c", "a"], norefs=["a"])
        add("last of four not in the reference", "nudge_missing", vars=list("abcd"), nudged=list("abcd"), norefs=["d"])
        add("third of four not in the state", "nudge_missing", vars=["a", "b", "c"], nudged=["a", "b", "zz", "c"])
        if deep:
            add("all", "nudge", vars=list("abcds"), nudged=list("sdcba"), time=True)
    else:
        layouts = [["y x", "x"], ["z y x", "z_interface y x"], ["x_interface y z", "z y_interface x_interface", "z"],
                   ["y_interface x", "x_interface z y_interface"], ["z y x_interface", "y_interface z_interface x", "y"]]
        extra = [["z_soil y x", "band z y x"], ["y x_interface z_soil", "z_soil", "x band y_interface z_interface"], ["x_wave y x", "y2 z x_interface", "tiles_interface y x_wave"]]
        for k, ds in enumerate(layouts + extra):
            add(f"tile {k}", "alloc", make="tile", dims=ds, rank=True, dtypes=["float64", "float32", "int32", "int64"][k % 4:][:1])
        for k, ds in enumerate(layouts[:3]):
            add(f"namelist {k}", "alloc", make="namelist", dims=ds, dtypes=[None])
        add("others first", "alloc", make="tile", dims=["y x", "z y_interface x"], rank=True, others=True)
        add("others first 2", "alloc", make="namelist", dims=["x_interface z"], others=True, dtypes=["float32"])
        add("namelist rank", "alloc", make="namelist", dims=layouts[1], rank=True, partitioner=True)
        add("keywords", "alloc", make="kw", dims=["y x", "z y_interface x"], rank=True, partitioner=True, dtypes=[None, "int32"])
        add("python types", "alloc", make="tile", dims=["y x", "z"], rank=True, dtypes=["int", "bool", "float", "int16"])
        add("no rank", "alloc", make="tile", dims=["y x"])
        add("unknown", "alloc_unknown", make="tile")
        if deep:
            import itertools

            for k, (a, b, c) in enumerate(itertools.product(["x", "x_interface"], ["y", "y_interface"], ["z", "z_interface"])):
                add(f"all {k}", "alloc", make="tile", rank=True, dims=[" ".join(p) for p in itertools.permutations((a, b, c))])
    return out
