"""State files (io.py) and restart directories (_legacy_restart.py)."""
import copy
import os
import shutil
import tempfile

BOUNDS = {
    "C23": "layouts 1x1, 1x2, 2x1 and 2x2 on the six tiles (up to 24 ranks), 1 to 3 cells per rank and axis and 1 to 3 levels (symbolic), arbitrary file contents, 76 of the fields with restart metadata, "
    "with and without label, optional files, coupler file, selected names, own tracers and a state to fill; local and remote file systems; two rank schedules and buffer moments",
    "C24": "up to three variables of up to four dimensions (none included) in any combination of dimension names and orders, sizes 1..12 per dimension, "
    "halos of 0..3 points on every side and axis, separate for each variable, arbitrary contents, float64, float32 and int32, C and other memory orders; dates of all calendars; "
    "units of every kind that file libraries interpret; sequences of up to three writes to two files",
}
OUTSIDE = {
    "C23": "fields of which several standard names share one name in the files; several times in one file; missing required files; a label of None",
    "C24": "element types the file format does not have (64-bit integers come back as 32-bit ones); dimensions with different sizes in one state; attributes other than units",
}
ASSUMPTIONS = [
    "the file library keeps the values, dimensions and attributes it is given, decodes times and time differences unless told not to, and makes coordinates of "
    "variables named after one of their dimensions (the stand-in in symx/libs.py; the real library runs in replays)",
]


def stubs(ctx, cfg):
    from symx import libs

    disk = libs.Disk()
    cfg["_disk"] = disk
    return {"xarray": libs.make_xarray(disk), "fsspec": disk.module()}


def raises(kinds, f, *a, **k):
    try:
        f(*a, **k)
    except kinds:
        return True
    return False


def make_variable(env, tag, dims, sizes, cfg, units, dtype="float64"):
    origin, extent, shape = [], [], []
    for k, d in enumerate(dims):
        if d not in sizes:
            sizes[d] = env.int(f"n{tag[0]}_{d}", 1, 12)
        o, t = env.int(f"o{tag}{k}", 0, 3), env.int(f"t{tag}{k}", 0, 3)
        origin.append(o), extent.append(sizes[d]), shape.append(o + sizes[d] + t)
    order = cfg.get("order", "C")
    data = env.array("a" + tag, shape, dtype, order if len(dims) > 1 else "C")
    return env.util.Quantity(data, tuple(dims), units, origin=tuple(origin), extent=tuple(extent))


def same_time(a, b):
    import cftime

    return isinstance(b, cftime.datetime) and a.calendar.replace("gregorian", "standard") == b.calendar.replace("gregorian", "standard") and all(
        getattr(a, k) == getattr(b, k) for k in ("year", "month", "day", "hour", "minute", "second", "microsecond"))


def dates():
    import cftime as c

    return [c.DatetimeJulian(2016, 8, 1, 0, 15), c.DatetimeNoLeap(2016, 2, 28, 23, 59, 59), c.Datetime360Day(2016, 2, 30, 12), c.DatetimeGregorian(2016, 2, 29, 1, 2, 3),
            c.DatetimeProlepticGregorian(1850, 1, 1), c.DatetimeAllLeap(2015, 2, 29, 0, 0, 1),
            c.DatetimeJulian(1, 1, 1, 0, 0, 0, 1), c.DatetimeNoLeap(9999, 12, 31, 23, 59, 59, 999999)]


class State:
    """A state with what it held when it was made."""

    def __init__(self, env, tag, cfg, time):
        self.sizes = {}
        self.state = {}
        spec = cfg["vars"]
        for k, (name, dims, units, dtype) in enumerate(spec):
            if name == "time":
                self.state["time"] = time
                continue
            self.state[name] = make_variable(env, f"{tag}_{k}", dims.split(), self.sizes, cfg, units, dtype)
        self.state.setdefault("time", time)
        self.names = list(self.state)
        self.parts = dict(self.state)
        self.held = {n: env.snapshot(q.data) for n, q in self.state.items() if n != "time"}
        self.time = copy.copy(time)

    def check_unaltered(self, env):
        env.check(list(self.state) == self.names and all(self.state[n] is self.parts[n] for n in self.names), "the written state is not altered")
        env.check(self.state["time"] == self.time, "the written state is not altered: time")
        for n, ref in self.held.items():
            a = self.state[n].data
            env.check_forall([(f"d{k}", 0, s) for k, s in enumerate(a.shape)], lambda *p: env.same(env.value(a, *p), ref(*p)),
                             "the written state is not altered", n)

    def check_read(self, env, got, cfg):
        env.check(set(got) == set(self.names), "the same names are read", lambda: f"{sorted(got)} not {sorted(self.names)}")
        env.check(same_time(self.time, got["time"]), "the same time is read", lambda: f"{got['time']!r} not {self.time!r}")
        for name, dims, units, dtype in cfg["vars"]:
            if name == "time":
                continue
            q, src = got[name], self.parts[name]
            dims = tuple(dims.split())
            env.check(tuple(q.dims) == dims, "the same dimensions are read", lambda: f"{name}: {q.dims}")
            env.check(q.units == units, "the same units are read", lambda: f"{name}: {q.units!r} not {units!r}")
            for k, d in enumerate(dims):
                env.check(q.extent[k] == self.sizes[d], "the extent read is the compute domain's", name)
            ref, o = self.held[name], src.origin
            v = q.view[:]
            env.check_forall([(d, 0, self.sizes[d]) for d in dims],
                             lambda *p: env.same(env.value(v, *p), ref(*[a + b for a, b in zip(o, p)])),
                             "the same values are read", name)


def with_folder(env, cfg, body):
    if env.symbolic:
        return body("")
    d = tempfile.mkdtemp(prefix="verif")
    try:
        return body(d + "/")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_round(env, cfg):
    def body(folder):
        U = env.util
        time = env.choice("time", dates())
        s = State(env, "a", cfg, time)
        path = folder + "state.nc"
        U.write_state(s.state, path)
        s.check_unaltered(env)
        got = U.read_state(path)
        s.check_read(env, got, cfg)
        # what was read is independent of the file and of the written state
        for n, q in got.items():
            if n != "time":
                q.view[(slice(None),) * len(q.dims)] = 5
        s.check_unaltered(env)
        again = U.read_state(path)
        s.check_read(env, again, cfg)
        env.cover("round trip")

    with_folder(env, cfg, body)


def run_sequence(env, cfg):
    def body(folder):
        U = env.util
        ds = dates()
        states = [State(env, "abc"[k], cfg, ds[k]) for k in range(cfg["states"])]
        files = {}
        for k, s in enumerate(states):
            name = env.choice(f"file{k}", ["one.nc", "two.nc"])
            U.write_state(s.state, folder + name)
            files[name] = s
            if env.boolean(f"change{k}"):
                # what is changed after writing does not matter
                for n, q in s.state.items():
                    if n != "time":
                        q.data[...] = -3
                s.held = dict(s.held)
                s.state["time"] = ds[5]
        for name, s in files.items():
            s.check_read(env, U.read_state(folder + name), cfg)
        env.cover("sequence")

    with_folder(env, cfg, body)


def run_timeless(env, cfg):
    """A state without a time is refused and nothing is written."""
    def body(folder):
        U = env.util
        s = State(env, "a", cfg, dates()[0])
        path = folder + "state.nc"
        exists = env.boolean("exists")
        if exists:
            U.write_state(s.state, path)
        bad = {n: q for n, q in State(env, "b", cfg, dates()[1]).state.items() if n != "time"}
        names = list(bad)
        env.check(raises(ValueError, U.write_state, bad, path), "a state without a time is refused")
        env.check(list(bad) == names, "the written state is not altered")
        there = U.filesystem.is_file(path)
        if exists:
            s.check_read(env, U.read_state(path), cfg)
        else:
            env.check(not there, "nothing is written for a state without a time")
        env.cover("no time")

    with_folder(env, cfg, body)


def run_badtime(env, cfg):
    """A file whose time is not a single date is refused."""
    def body(folder):
        import importlib

        U = env.util
        n = env.int("n", 1, 4)
        what = env.choice("what", ["number", "several", "date in a list"])
        if what == "several":
            time = (("t",), env.array("time", (n,)), {})
        elif what == "number":
            time = ((), env.array("time", ()), {})
        else:
            time = (("t",), env.array("time", (1,)), {"units": "days since 2000-01-01", "calendar": "julian"})
        vs = {"a": (("x",), env.array("a", (n,)), {"units": "kg"}), "time": time}
        if env.symbolic:
            cfg["_disk"].files["s.nc"] = ("netcdf", {k: (d, dims, at) for k, (dims, d, at) in vs.items()}, {})
        else:
            importlib.import_module("xarray").Dataset(vs).to_netcdf(folder + "s.nc")
        env.check(raises(ValueError, U.read_state, folder + "s.nc"), "a file whose time is not a single date is refused")
        env.cover("bad time")

    with_folder(env, cfg, body)


# -- restart directories -------------------------------------------------------------
# standard name, name in the files, dimensions (capitals: interfaces, s: soil layers), units
FIELDS = """
accumulated_x_courant_number cx zyx -
accumulated_x_mass_flux mfx zyX unknown
accumulated_y_courant_number cy zyx unknown
accumulated_y_mass_flux mfy zYx unknown
air_temperature T zyx degK
air_temperature_after_physics gt0 zyx K
air_temperature_at_2m t2m yx degK
area_of_grid_cell area yx m^2
atmosphere_hybrid_a_coordinate ak Z Pa
atmosphere_hybrid_b_coordinate bk Z -
canopy_water canopy yx unknown
convective_cloud_bottom_pressure cvb yx Pa
convective_cloud_fraction cv yx -
convective_cloud_top_pressure cvt yx Pa
deep_soil_temperature tg3 yx degK
dissipation_estimate_from_heat_source diss_est zyx unknown
eastward_wind ua zyx m/s
eastward_wind_after_physics gu0 zyx m/s
eastward_wind_at_surface u_srf yx m/s
fh_parameter ffhh yx unknown
fm_at_10m f10m yx unknown
fm_parameter ffmm yx unknown
fractional_coverage_with_strong_cosz_dependency facsf yx -
fractional_coverage_with_weak_cosz_dependency facwf yx -
friction_velocity uustar yx m/s
ice_fraction_over_open_water fice yx -
interface_pressure pe yZx Pa
interface_pressure_raised_to_power_of_kappa pk Zyx unknown
land_sea_mask slmsk yx -
latent_heat_flux dqsfci yx W/m^2
latitude xlat yx radians
layer_mean_pressure_raised_to_power_of_kappa pkz zyx unknown
liquid_soil_moisture slc syx unknown
logarithm_of_interface_pressure peln yZx ln(Pa)
longitude xlon yx radians
maximum_fractional_coverage_of_green_vegetation shdmax yx -
maximum_snow_albedo_in_fraction snoalb yx -
mean_cos_zenith_angle coszen yx -
mean_near_infrared_albedo_with_strong_cosz_dependency alnsf yx -
mean_near_infrared_albedo_with_weak_cosz_dependency alnwf yx -
mean_visible_albedo_with_strong_cosz_dependency alvsf yx -
mean_visible_albedo_with_weak_cosz_dependency alvwf yx -
minimum_fractional_coverage_of_green_vegetation shdmin yx -
northward_wind va zyx m/s
northward_wind_after_physics gv0 zyx m/s
northward_wind_at_surface v_srf yx m/s
pressure_thickness_of_atmospheric_layer delp zyx Pa
sea_ice_thickness hice yx unknown
sensible_heat_flux dtsfci yx W/m^2
snow_cover_in_fraction sncovr yx -
snow_depth_water_equivalent snwdph yx mm
snow_rain_flag srflag yx -
soil_temperature stc syx degK
soil_type stype yx -
specific_humidity_at_2m q2m yx kg/kg
surface_geopotential phis yx m^2_s^-2
surface_pressure ps yx Pa
surface_roughness zorl yx cm
surface_slope_type slope yx -
surface_temperature tsea yx degK
surface_temperature_over_ice_fraction tisfc yx degK
total_condensate_mixing_ratio q_con zyx kg/kg
total_precipitation tprcp yx m
total_soil_moisture smc syx unknown
vegetation_fraction vfrac yx -
vegetation_type vtype yx -
vertical_pressure_velocity omga zyx Pa/s
vertical_thickness_of_atmospheric_layer DZ zyx m
vertical_wind W zyx m/s
water_equivalent_of_accumulated_snow_depth sheleg yx kg/m^2
x_wind u zYx m/s
x_wind_on_c_grid uc zyX m/s
y_wind v zyX m/s
y_wind_on_c_grid vc zYx m/s
"""
DIMS = dict(z="z", Z="z_interface", s="z_soil", y="y", Y="y_interface", x="x", X="x_interface")
FILE_DIMS = dict(z="zaxis_1", Z="zaxis_2", s="zaxis_1", y="yaxis_2", Y="yaxis_1", x="xaxis_1", X="xaxis_2")
BY_RESTART = {}
for _line in FIELDS.split("\n"):
    if _line:
        _s, _r, _d, _u = _line.split()
        BY_RESTART[_r] = (_s, _d, "" if _u == "-" else _u.replace("_", " "))
REQUIRED = ("fv_core.res", "fv_srf_wnd.res", "fv_tracer.res")


class Directory:
    """Puts files where the code under test finds them."""

    def __init__(self, env, cfg, tag=""):
        self.env, self.cfg, self.remote = env, cfg, cfg.get("remote", False)
        self.folder = None
        if not self.remote:
            self.folder = self.name = tempfile.mkdtemp(prefix="verif")
        else:
            self.name = f"memory://verif{os.getpid()}{tag}"

    def put(self, fname, variables):
        path = os.path.join(self.name, fname)
        if self.env.symbolic:
            self.cfg["_disk"].files[path] = ("netcdf", {k: (d, dims, at) for k, (dims, d, at) in variables.items()}, {})
            self.placeholder(path)
        else:
            import fsspec
            import xarray

            content = xarray.Dataset(variables).to_netcdf()
            with fsspec.open(path, "wb") as f:
                f.write(content)

    def put_text(self, fname, lines):
        path = os.path.join(self.name, fname)
        if self.env.symbolic:
            self.cfg["_disk"].files[path] = lines
            self.placeholder(path)
        else:
            import fsspec

            with fsspec.open(path, "w") as f:
                f.write("".join(lines))

    def placeholder(self, path):
        if self.folder:
            open(path, "w").close()

    def remove(self):
        if self.folder:
            shutil.rmtree(self.folder, ignore_errors=True)
        elif not self.env.symbolic:
            import fsspec

            fs = fsspec.filesystem("memory")
            if fs.exists(self.name):
                fs.rm(self.name, recursive=True)


def run_restart(env, cfg):
    ny, nx = cfg["layout"]
    per = ny * nx
    R = 6 * per
    U = env.util
    my, mx = env.int("my", 1, 3), env.int("mx", 1, 3)
    vert = {"z": env.int("nz", 1, 3), "s": env.int("ns", 1, 3)}
    vert["Z"] = vert["z"] + 1
    size = dict(vert, y=ny * my, Y=ny * my + 1, x=nx * mx, X=nx * mx + 1)
    share = dict(vert, y=my, Y=my + 1, x=mx, X=mx + 1)
    tracers = cfg.get("tracers", {})  # restart name -> (standard name, dims, units)
    known = dict(BY_RESTART)
    for r, v in tracers.items():
        known[r] = tuple(v)
    label = cfg.get("label", "")
    d, d0 = Directory(env, cfg), None
    fnames = dict(zip("zZsyYxX", ["a0", "a1", "a0", "k2", "k1", "c", "c2"])) if cfg.get("other_names") else FILE_DIMS
    content = {}  # (tile, restart name) -> reader
    try:
        def dtype_of(k):
            return ["float64", "float32", "int32"][k % 3] if cfg.get("dtypes") else "float64"

        def files_for(prefix, decoy):
            for tile in range(6):
                for fname, names in cfg["files"].items():
                    vs = {"Time": (("Time",), env.np.zeros((1,)), {})}
                    for k, r in enumerate(names):
                        dims = known[r][1] if r in known else "zyx"
                        fdims = tuple(fnames[c] for c in dims)
                        shape = tuple(size[c] for c in dims)
                        if decoy:
                            a = env.np.zeros((1,) + shape)
                        else:
                            a = env.array(f"f{tile}{r}", (1,) + shape, dtype_of(k))
                            content[tile, r] = env.snapshot(a)
                        attrs = {"long_name": r, "units": "none"}
                        if r not in known and r.startswith("bare"):
                            attrs = {"long_name": r}
                        vs[r] = (("Time",) + fdims, a, attrs)
                    d.put(f"{prefix}{fname}.tile{tile + 1}.nc", vs)

        files_for(label + "." if label else "", False)
        if cfg.get("decoy"):
            files_for("" if label else "old.", True)
        earlier = cfg.get("earlier")
        if earlier:  # another directory is opened first, with tracers of its own
            d0 = Directory(env, cfg, "_")
            for tile in range(6):
                for fname, names in {"fv_core.res": ["T", "u"], "fv_srf_wnd.res": ["v_srf"], "fv_tracer.res": list(earlier)}.items():
                    vs = {"Time": (("Time",), env.np.zeros((1,)), {})}
                    for r in names:
                        dims = "zyx" if r in earlier else known[r][1]
                        vs[r] = (("Time",) + tuple(FILE_DIMS[c] for c in dims), env.np.zeros((1,) + tuple(size[c] for c in dims)), {"units": "other"})
                    d0.put(f"{label + '.' if label else ''}{fname}.tile{tile + 1}.nc", vs)
            d0.put_text((label + "." if label else "") + "coupler.res", [
                "     2        (Calendar: no_calendar=0)\n", "  2016     8     1     0     0     0   Model start time\n", "  1999     1     1     1     1     1\n"])
        time = None
        coupler = ["     3        (Calendar: no_calendar=0)\n", "  2016     8     1     0     0     0   Model start time\n"]
        if cfg.get("coupler", True):
            d.put_text((label + "." if label else "") + "coupler.res", coupler + ["  2016     8     3    12     5     9   Current model time\n"])
            time = (2016, 8, 3, 12, 5, 9)
        if cfg.get("decoy"):
            d.put_text("coupler.res" if label else "old.coupler.res", coupler + ["  2001     1     1     0     0     0\n"])
        only = cfg.get("only")
        if only is not None and "time" not in only:
            time = None
        expected = {}  # name -> (restart name, dims, units)
        for fname, names in cfg["files"].items():
            for r in names:
                if r in known:
                    s, dims, units = known[r]
                    e = (r, tuple(DIMS[c] for c in dims), units, tuple(share[c] for c in dims), dims)
                elif not r.startswith("bare"):
                    s, dims = r, "zyx"
                    e = (r, tuple(fnames[c] for c in dims), "none", tuple(size[c] for c in dims), "...")
                else:
                    continue
                if only is None or s in only:
                    expected[s] = e
        order = list(range(R))
        if cfg.get("sched") == "down":
            order.reverse()
        w = env.world(R, capture=cfg.get("capture", "eager"), order=order)
        given, before, out = {}, {}, {}
        kept = cfg.get("to_state")

        def program(r):
            def go(comm):
                c = U.CubedSphereCommunicator(comm, U.CubedSpherePartitioner(U.TilePartitioner((ny, nx))))
                kw = {}
                if label or cfg.get("pass_label"):
                    kw["label"] = label
                if only is not None:
                    kw["only_names"] = list(only)
                if tracers:
                    kw["tracer_properties"] = {s: {"dims": [DIMS[c_] for c_ in dims], "restart_name": n, "units": u} for n, (s, dims, u) in tracers.items()}
                if kept is not None:
                    st = {}
                    for n in kept:
                        _, dims, units, sh, _2 = expected[n]
                        og = tuple(env.int(f"o{r}{n}{k}", 0, 1) if r in (0, R - 1) else 1 for k in range(len(sh)))
                        data = env.array(f"s{r}{n}", tuple(o + e + 1 for o, e in zip(og, sh)))
                        st[n] = U.Quantity(data, dims, units, origin=og, extent=sh)
                        before[r, n] = (st[n], env.snapshot(data))
                    given[r] = kw["to_state"] = st
                if earlier:
                    U.open_restart(d0.name, c, label, tracer_properties={s: {"dims": [DIMS[c_] for c_ in dims], "restart_name": n, "units": u} for n, (s, dims, u) in earlier.items()})
                    U.open_restart(d0.name, c, label, ["x_wind", "time"], {})
                out[r] = U.open_restart(d.name, c, **kw)
            return go

        w.run([program(r) for r in range(R)])
        w.leftover()
        for r in range(R):
            st = out[r]
            tile, s = divmod(r, per)
            j, i = divmod(s, nx)
            if kept is not None:
                env.check(st is given[r], "the state to fill is returned")
            want = set(expected) | ({"time"} if time is not None else set())
            env.check(set(st) == want, "every rank gets exactly the variables asked for", lambda: f"rank {r}: {sorted(st)} not {sorted(want)}")
            if time is not None:
                t = st["time"]
                env.check((t.year, t.month, t.day, t.hour, t.minute, t.second) == time, "the time is that of the coupler file", lambda: f"rank {r}: {t}")
            for n, (rn, dims, units, sh, letters) in expected.items():
                q = st[n]
                who = lambda: f"rank {r} {n}"  # noqa
                env.check(tuple(q.dims) == dims, "variables have the dimensions of their metadata", lambda: f"{n}: {q.dims} not {dims}")
                env.check(q.units == units, "variables have the units of their metadata", lambda: f"{n}: {q.units!r} not {units!r}")
                for a, b in zip(q.extent, sh):
                    env.check(a == b, "variables have the rank's share", lambda: f"{n}: {q.extent}")
                start = [j * my if c in "yY" else i * mx if c in "xX" else 0 for c in letters] if letters != "..." else [0] * len(sh)
                ref = content[tile, rn]
                env.check_forall([(f"p{k}", 0, e) for k, e in enumerate(sh)],
                                 lambda *p: env.same(env.value(q.data, *[a + b for a, b in zip(q.origin, p)]), ref(0, *[a + b for a, b in zip(start, p)])),
                                 "every rank gets its share of its tile's data", who)
                if kept is not None and n in kept:
                    q0, bef = before[r, n]
                    env.check(q is q0, "given quantities are filled in place", who)

                    def outside(*p):
                        if env.And(*[env.And(x >= o, x < o + e) for x, o, e in zip(p, q.origin, sh)]):
                            return True
                        return env.same(env.value(q.data, *p), bef(*p))

                    env.check_forall([(f"p{k}", 0, e) for k, e in enumerate(q.data.shape)], outside, "halos of given quantities are left alone", who)
        env.cover("restart")
    finally:
        d.remove()
        if d0 is not None:
            d0.remove()


def run(env, cfg):
    globals()["run_" + cfg["kind"]](env, cfg)


def configs(tier, prop):
    out = []

    def add(name, kind, **k):
        k.setdefault("max_models", 12)
        k.setdefault("max_paths", 200000)
        out.append(dict(name=name, kind=kind, **k))

    if prop == "C24":
        f8, f4, i4 = "float64", "float32", "int32"
        V = lambda n, d, u="kg", t=f8: (n, d, u, t)  # noqa
        add("1d", "round", vars=[V("a", "x")])
        add("2d", "round", vars=[V("a", "y x", "m/s")], order="F")
        add("3d", "round", vars=[V("a", "z y x", "", f4), V("time", "")])
        add("reversed", "round", vars=[V("a", "x_interface y_interface z", "K"), V("b", "z y_interface", "Pa")])
        add("three", "round", vars=[V("x_wind", "z y_interface x", "m/s"), V("time", ""), V("y_wind", "z y x_interface", "m/s", f4), V("mask", "y x", "", i4)])
        add("scalar", "round", vars=[V("a", "", "1"), V("b", "x", "1")])
        add("no variables", "round", vars=[])
        add("four", "round", vars=[V("a", "tile z y x")])
        for k, u in enumerate(["seconds", "days", "hours since 2000-01-01 00:00:00", "days since start", " kg ", "degrees_east"]):
            add(f"units {k}", "round", vars=[V("a", "x", u), V("b", "y x", u, f4)])
        add("named after its dimension", "round", vars=[V("z", "z", "m"), V("a", "z y", "K")])
        add("named after a dimension", "round", vars=[V("z", "y z", "m"), V("x", "x", "seconds", f4), V("a", "z y", "K"), V("y", "y", "")])
        add("two writes", "sequence", states=2, vars=[V("a", "y x"), V("s", "", "K")])
        add("three writes", "sequence", states=3, vars=[V("a", "y x", "s")])
        add("no time", "timeless", vars=[V("a", "y x"), V("b", "x")])
        add("no time, no variables", "timeless", vars=[])
        add("bad time", "badtime")
        if tier != "quick":
            import itertools

            for a, b, c in itertools.product(["x", "x_interface"], ["y", "y_interface"], ["z", "z_interface", "z_soil"]):
                for p in itertools.permutations((a, b, c)):
                    add(" ".join(p), "round", vars=[V("a", " ".join(p)), V("b", " ".join(p[:2]), "m", f4)])
    if prop == "C23":
        core, srf, tr = ["u", "v", "T", "phis"], ["u_srf", "v_srf"], ["bare_tracer", "with_units"]
        must = {"fv_core.res": core, "fv_srf_wnd.res": srf, "fv_tracer.res": tr}
        some = {"fv_core.res": ["u", "T"], "fv_srf_wnd.res": ["v_srf"], "fv_tracer.res": ["bare_tracer"]}
        opt = {"sfc_data": ["stc", "tsea"], "phy_data": ["cv"]}
        add("one rank per tile", "restart", layout=[1, 1], files={**must, **opt}, decoy=True, pass_label=True)
        add("label", "restart", layout=[1, 1], files={**some, "phy_data": ["cvb"]}, label="20160803.120509.", decoy=True)
        add("no coupler", "restart", layout=[1, 1], files={**some, "sfc_data": ["slc"]}, coupler=False, label="x", decoy=True)
        add("remote", "restart", layout=[1, 1], files={**some, **opt}, remote=True, label="run2", decoy=True)
        add("remote, no optional files", "restart", layout=[1, 1], files=some, remote=True)
        leak = {"with_units": ["some_tracer", "zyx", "g"], "bare_tracer": ["other_tracer", "zyx", "g"]}
        add("another first", "restart", layout=[1, 2], files={**must, **opt}, earlier=leak)
        add("another first, remote", "restart", layout=[1, 1], files={**some, "fv_tracer.res": ["sphum", "with_units"]}, remote=True, label="run2", earlier=leak,
            tracers={"sphum": ["specific_humidity", "zyx", "kg/kg"]}, coupler=False)
        add("two by two", "restart", layout=[2, 2], files={"fv_core.res": ["u", "v", "phis"], "fv_srf_wnd.res": ["u_srf"], "fv_tracer.res": ["with_units"]})
        add("one by two", "restart", layout=[1, 2], files=some, sched="down", capture="late")
        add("two by one", "restart", layout=[2, 1], files={**some, **opt}, dtypes=True)
        add("only some", "restart", layout=[1, 2], files={**must, **opt}, only=["x_wind", "time", "soil_temperature", "not_there"])
        add("only some, no time", "restart", layout=[2, 1], files={**must, **opt}, only=["surface_geopotential", "y_wind", "with_units"])
        add("only the time", "restart", layout=[1, 1], files=must, only=["time"])
        add("nothing", "restart", layout=[1, 1], files=some, only=[])
        add("tracers", "restart", layout=[1, 2], files={**some, "fv_tracer.res": ["sphum", "o3mr", "bare_tracer"], "phy_data": ["band_1"]},
            tracers={"sphum": ["specific_humidity", "zyx", "kg/kg"], "o3mr": ["ozone_mixing_ratio", "zyx", "kg/kg"], "band_1": ["flux_band", "Yx", "W/m^2"]})
        add("other dimension names", "restart", layout=[1, 2], files={**some, **opt}, other_names=True)
        add("to state", "restart", layout=[1, 2], files=some, to_state=["x_wind", "northward_wind_at_surface"])
        add("to state, label", "restart", layout=[2, 1], files={**some, **opt}, to_state=["soil_temperature", "air_temperature"], label="a.b", only=["air_temperature", "soil_temperature", "time"])
        names = [r for r, v in BY_RESTART.items()]
        n = len(names)
        parts = 4 if tier == "quick" else 1
        for k in range(parts):
            sel = names[k::parts]
            fs = ["fv_core.res", "fv_srf_wnd.res", "fv_tracer.res", "sfc_data", "phy_data"]
            # layers of soil and of the atmosphere share a file dimension name, not a file
            soil = [r for r in sel if "s" in BY_RESTART[r][1]]
            rest = [r for r in sel if r not in soil]
            files = {f: rest[j::4] for j, f in enumerate(["fv_core.res", "fv_srf_wnd.res", "fv_tracer.res", "phy_data"])}
            if soil:
                files["sfc_data"] = soil
            add(f"all fields {k}", "restart", layout=[1, 1], files=files, max_models=2)
        if tier != "quick":
            for lay in ([2, 2], [1, 3], [3, 1]):
                for cap in ("eager", "late"):
                    for sched in ("up", "down"):
                        add(f"layout {lay} {cap} {sched}", "restart", layout=lay, files={**must, **opt}, capture=cap, sched=sched, dtypes=True, label="l")
    return out
