"""The Zarr monitor (zarr_monitor.py)."""
import copy
import shutil
import tempfile
from datetime import timedelta

from harness.geometry import ax
from harness.scatter import Geo, padded, quantity, start_of

BOUNDS = {
    "C19": "layouts 1x1, 1x2, 2x1 and 2x2 (6 to 24 ranks), up to three stores (and, for the smallest layout, over a hundred by six ranks and over a thousand by one process), 1 to 4 cells per rank and axis, other sizes 1 to 3 and halos 0 to 2 (symbolic), "
    "arbitrary contents, float64, float32 and int32, up to three variables of up to four dimensions in any order with interfaces, ranks listing their variables in "
    "different orders, seven sets of times of six calendars (fractions of seconds, thousands of years apart, going back), rank schedules up, down and with synchronising collectives; a single process with the default communicator",
    "C20": "the layouts listed in the evidence, up to 8x8, 1 to 1024 cells per rank and axis (symbolic), ten combinations and orders of dimensions, all pairs of ranks of one tile and ranks of another, two stores",
}
OUTSIDE = {
    "C19": "sizes that do not divide by the layout; stores opened to append to what another monitor stored; states that change between stores other than in values",
    "C20": "variables without both horizontal dimensions (their only chunk is written by every rank); sizes that do not divide by the layout",
}
ASSUMPTIONS = [
    "the chunked array library keeps what it is given; a handle received from another rank knows the size the array had when it was sent (the real library runs in replays)",
]


def stubs(ctx, cfg):
    from symx import libs, npshim

    disk = libs.Disk()
    cfg["_stores"] = {}
    return {"xarray": libs.make_xarray(disk), "fsspec": disk.module(), "zarr": libs.make_zarr(cfg["_stores"], npshim.numpy.empty)}


def times(k):
    import cftime as c

    cls = [c.DatetimeJulian, c.DatetimeNoLeap, c.Datetime360Day, c.DatetimeProlepticGregorian, c.DatetimeGregorian, c.DatetimeAllLeap, c.DatetimeJulian][k]
    return [cls(*t) for t in [
        [(2016, 2, 27, 23, 0, 1), (2031, 2, 28, 0, 0, 0), (2016, 3, 1, 12, 30, 0)],
        [(2016, 12, 30, 23, 59, 59), (2016, 12, 30, 23, 59, 59, 500000), (2017, 1, 1, 0, 0, 0)],
        [(2, 2, 30, 23, 0, 1), (2, 3, 1, 12, 30, 0), (9998, 12, 30, 23, 59, 59)],
        [(2016, 2, 29, 11, 0, 59, 250000), (2016, 2, 28, 0, 0, 0), (1850, 7, 1, 12, 30, 13, 750000)],
        [(1583, 1, 1), (2016, 2, 29, 1, 2, 3), (2400, 2, 29, 1, 2, 3)],
        [(2016, 2, 29), (2017, 2, 29), (2400, 2, 29, 1, 2, 3)],
        [(1900, 2, 28, 23), (1900, 2, 29, 1), (1899, 12, 31, 23, 59, 59)],
    ][k]]


class Stored:
    """Reads what is in the store at the end."""

    def __init__(self, env, cfg, path):
        self.env = env
        if env.symbolic:
            self.store = cfg["_stores"][path]
            self.names = list(self.store.arrays)
        else:
            import zarr

            self.group = zarr.open_group(path, mode="r")
            self.names = list(self.group.array_keys())

    def array(self, name):
        """shape, dtype, attributes, reader(t) -> array"""
        if self.env.symbolic:
            d = self.store.arrays[name]
            return d.shape, d.dtype, dict(d.attrs), lambda t: d.slabs[t]
        a = self.group[name]
        return a.shape, a.dtype, dict(a.attrs), lambda t: a[t]


def run_store(env, cfg):
    U = env.util
    ny, nx = cfg["layout"]
    per = ny * nx
    solo = cfg.get("solo")
    R = 1 if solo else 6 * per
    order = list(range(R))
    if cfg.get("sched") == "down":
        order.reverse()
    my, mx = env.int("my", 1, 4), env.int("mx", 1, 4)
    other = {}
    T = cfg["stores"]
    gcfg = dict(cfg, zmax=3)
    geos = {n: Geo(env, n, dims.split(), gcfg, my, mx, ny, nx, other) for n, dims, _, _ in cfg["vars"]}
    when = times(cfg.get("calendar", 0))
    look = cfg.get("look", range(T))  # the stores whose data are compared
    if T > len(when):
        when = [when[0] + timedelta(seconds=450 * t, microseconds=t % 2 * 500000) for t in range(T)]
    refs, origins = {}, {}
    path = "store" if env.symbolic else tempfile.mkdtemp(prefix="verif")
    inner = {}
    for n, dims, units, dtype in cfg["vars"]:
        g = geos[n]
        inner[n] = padded(env, n, g.rank, set(range(len(g.rank))) if cfg.get("pad", True) else set())

    def program(r):
        def go(comm):
            part = U.CubedSpherePartitioner(U.TilePartitioner((ny, nx)))
            kw = {} if solo else {"mpi_comm": comm}
            m = U.ZarrMonitor(path, part, **({"mode": "w"} if cfg.get("mode", True) else {}), **kw)
            qs = {}
            if cfg.get("second"):  # another monitor, stored to in turn: the same names, other variables
                m2 = U.ZarrMonitor(path + "2", U.CubedSpherePartitioner(U.TilePartitioner((ny, nx))), **kw)
            for t in range(T):
                state = {}
                if cfg.get("second"):
                    m2.store({"time": times(3)[1 - t], **{
                        v[0]: U.Quantity(env.np.zeros((3,) * len(v[1].split()), "int16"), tuple(v[1].split()[::-1]), "other") for v in cfg["vars"][::-1]}})
                names = [v[0] for v in cfg["vars"]]
                if cfg.get("shuffle"):
                    names = names[r % len(names):] + names[: r % len(names)]
                if r % 2:
                    state["time"] = when[t]
                for v in cfg["vars"]:
                    n, dims, units, dtype = v
                    o, shape = inner[n]
                    if n in qs and cfg.get("reuse"):
                        fresh = env.array(f"{n}_{r}_{t}", shape, dtype)
                        qs[n].data[...] = fresh
                    else:
                        qs[n] = U.Quantity(env.array(f"{n}_{r}_{t}", shape, dtype, cfg.get("order", "C") if len(shape) > 1 else "C"), tuple(dims.split()), units,
                                           origin=o, extent=tuple(geos[n].rank))
                    if t in look:
                        refs[n, r, t] = env.snapshot(qs[n].data)
                for n in names:
                    state[n] = qs[n]
                state.setdefault("time", when[t])
                held = dict(state)
                for _, n, units in [x for x in cfg.get("bad", []) if x[0] == t]:  # all ranks try a state which does not match
                    q = state[n]
                    bad = dict(state, **{n: U.Quantity(env.array(f"bad_{n}_{r}", q.data.shape, "float64"), q.dims, units, origin=q.origin, extent=q.extent)})
                    try:
                        m.store(bad)
                    except ValueError:
                        pass
                    else:
                        env.fail("states that do not match the first one are refused", f"rank {r}")
                m.store(state)
                env.check(list(state) == list(held) and all(state[k] is held[k] for k in held), "storing leaves the state as it was")
                for n in names if t in look else []:
                    ref, a = refs[n, r, t], state[n].data
                    env.check_forall([(f"p{k}", 0, s) for k, s in enumerate(a.shape)], lambda *p: env.same(env.value(a, *p), ref(*p)), "storing leaves the state as it was", n)
        return go

    try:
        if solo:
            program(0)(None)
        else:
            w = env.world(R, capture="eager", order=order, sync=cfg.get("sync", False))
            w.run([program(r) for r in range(R)])
            w.leftover()
        got = Stored(env, cfg, path)
        env.check(set(got.names) == set(geos) | {"time"}, "each variable is stored once, with the time", lambda: f"{got.names}")
        for n, dims, units, dtype in cfg["vars"]:
            g = geos[n]
            shape, dt, attrs, at = got.array(n)
            env.check(len(shape) == len(g.dims) + 2 and shape[0] == T and shape[1] == 6, "stored arrays have one entry per store and tile", lambda: f"{n}: {shape}")
            for a, b in zip(shape[2:], g.tile):
                env.check(a == b, "stored arrays have the extent of a tile", lambda: f"{n}: {shape}")
            env.check(dt == dtype, "stored arrays have the element type of the quantity", lambda: f"{n}: {dt}")
            env.check(list(attrs.get("_ARRAY_DIMENSIONS", ())) == ["time", "tile"] + dims.split(), "stored arrays name their dimensions", lambda: f"{n}: {attrs}")
            env.check(attrs.get("units") == units, "stored arrays have the units of the quantity", lambda: f"{n}: {attrs}")
            for t in look:
                whole = at(t)
                for r in range(R):
                    check_part(env, cfg, n, g, r, t, my, mx, whole, refs, inner, R)
        shape, dt, attrs, at = got.array("time")
        env.check(len(shape) == 1 and shape[0] == T, "there is one time per store", lambda: f"{shape}")
        env.check(list(attrs.get("_ARRAY_DIMENSIONS", ())) == ["time"], "the time axis names its dimension")
        import cftime

        for t in range(T):
            env.check(attrs.get("calendar") == when[t].calendar, "the time axis has the calendar of the times")
            v = at(t)
            v = env.value(v) if env.symbolic else v
            want = cftime.date2num(when[t], attrs["units"], attrs["calendar"])
            env.check(v == want if env.symbolic else abs(float(v) - want) < 1e-6 and cftime.num2date(float(v), attrs["units"], attrs["calendar"]) == when[t],
                      "the time axis holds the stored times", lambda: f"store {t}: {v} {attrs}")
        env.cover("stored")
    finally:
        if not env.symbolic:
            shutil.rmtree(path, ignore_errors=True)
            shutil.rmtree(path + "2", ignore_errors=True)


def check_part(env, cfg, n, g, r, t, my, mx, whole, refs, inner, R):
    """The stored array at the points of one rank."""
    ny, nx = cfg["layout"]
    tile, st = start_of(cfg, g, r, my, mx)
    o, _ = inner[n]

    def body(*idx):
        pos = [a + b for a, b in zip(st, idx)]
        v = env.value(whole, tile, *pos)
        mine = env.same(v, refs[n, r, t](*[a + b for a, b in zip(o, idx)]))
        # points on a line shared by several ranks may hold the value of either
        shared = []
        j, i = divmod(r % (ny * nx), nx)
        for k, d in enumerate(g.dims):
            if d in ("x_interface", "y_interface"):
                c, m, cnt = (j, my, ny) if ax(d) == "y" else (i, mx, nx)
                step = nx if ax(d) == "y" else 1
                if c > 0:
                    shared.append((k, idx[k] == 0, -step, m))
                if c < cnt - 1:
                    shared.append((k, idx[k] == m, step, -m))
        opts = [mine]

        def rec(s, rr, shift, cond):
            if not s:
                if rr != r and not (R == 1):
                    opts.append(env.And(*cond, env.same(v, refs[n, rr, t](*[a + b + c for a, b, c in zip(o, idx, shift)]))))
                return
            k, at, step, m = s[0]
            rec(s[1:], rr, shift, cond)
            if not any(k == q for q in [c[0] for c in used]):
                used.append((k,))
                sh = list(shift)
                sh[k] = m
                if bool(at):
                    rec(s[1:], rr + step, sh, cond)
                used.pop()

        used = []
        if shared and R > 1:
            rec(shared, r, [0] * len(g.dims), [])
        return env.Or(*opts)

    env.check_forall([(d, 0, e) for d, e in zip(g.dims, g.rank)], body, "stored arrays hold every rank's data", lambda: f"{n} rank {r} store {t}")


def run_refuse(env, cfg):
    """States with other variables than before, or times of another calendar, are refused."""
    import cftime

    U = env.util
    path = "store" if env.symbolic else tempfile.mkdtemp(prefix="verif")
    try:
        m = U.ZarrMonitor(path, U.CubedSpherePartitioner(U.TilePartitioner((1, 1))))
        n = env.int("n", 1, 4)
        mk = lambda tag, units="m": U.Quantity(env.array(tag, (n, n)), ("y", "x"), units)  # noqa
        mine = cfg.get("calendar", 0)
        when = times(mine) + [type(times(mine)[0])(2047, 5, 6, 7, 8, 9)]
        names = ["a different calendar: " + times(k)[0].calendar for k in range(6) if k != mine]
        a, b = mk("a"), mk("b")
        before = env.choice("before", [1, 2, 3])
        refs = []
        for t in range(before):
            if t:
                a, b = mk(f"a{t}"), mk(f"b{t}")
            refs.append((env.snapshot(a.data), env.snapshot(b.data)))
            m.store({"time": when[t], "a": a, "b": b})
        what = env.choice("what", ["more", "fewer", *names, "units", "second units", "other", "dims", "size", "second size"])
        late = when[before]
        other = {"a different calendar: " + times(k)[0].calendar: {"time": type(times(k)[0])(2047, 5, 6, 7, 8, 9), "a": a, "b": b} for k in range(6)}
        bad = {"more": {"time": late, "a": a, "b": b, "c": mk("c")}, "fewer": {"time": late, "a": a}, "other": {"time": late, "a": a, "d": b},
               **other, "units": {"time": late, "a": mk("e", "km"), "b": b},
               "second units": {"time": late, "a": a, "b": mk("e", "km")},
               "size": {"time": late, "a": U.Quantity(env.array("e", (n, n + 1)), ("y", "x"), "m"), "b": b},
               "second size": {"time": late, "a": a, "b": U.Quantity(env.array("e", (n + 1, n + 1)), ("y", "x"), "m", extent=(n + 1, n))},
               "dims": {"time": late, "a": a, "b": U.Quantity(env.array("e", (n, n)), ("x", "y"), "m")}}[what]
        try:
            m.store(bad)
        except ValueError:
            pass
        else:
            env.fail("states that do not match the first one are refused", what)
        if env.choice("after", [False, True]):  # storing goes on with a state that does match
            k = before
            a, b = mk("a_after"), mk("b_after")
            refs.append((env.snapshot(a.data), env.snapshot(b.data)))
            m.store({"time": when[k], "b": b, "a": a})
        got = Stored(env, cfg, path)
        env.check(set(got.names) == {"a", "b", "time"}, "a refused state adds no variable", lambda: f"{what}: {got.names}")
        for t, pair in enumerate(refs):
            for name, ref in zip("ab", pair):
                whole = got.array(name)[3](t)
                env.check_forall([("y", 0, n), ("x", 0, n)], lambda y, x: env.same(env.value(whole, 0, y, x), ref(y, x)), "a refused state leaves what was stored", lambda: f"{what} {name} {t}")
        shape, dt, attrs, at = got.array("time")
        env.check(shape[0] == len(refs), "a refused state adds no time", lambda: f"{shape}")
        for t in range(len(refs)):
            v = env.value(at(t)) if env.symbolic else at(t)
            want = cftime.date2num(when[t], attrs["units"], attrs["calendar"])
            env.check(v == want if env.symbolic else abs(float(v) - want) < 1e-6, "a refused state leaves the stored times")
        env.check(attrs["calendar"] == when[0].calendar, "a refused state leaves the calendar")
        env.cover("refused")
    finally:
        if not env.symbolic:
            shutil.rmtree(path, ignore_errors=True)


# -- who writes which chunk ------------------------------------------------------------
class TurnComm:
    """Ranks take turns, rank 0 first; broadcasts hand over copies."""

    def __init__(self, rank, size, box):
        self.rank, self.size, self.box, self.n = rank, size, box, 0

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def bcast(self, value, root=0):
        k = self.n
        self.n += 1
        if self.rank == root:
            self.box[k] = copy.deepcopy(value)
            return value
        return copy.deepcopy(self.box[k])

    def barrier(self):
        pass

    Barrier = barrier


def run_chunks(env, cfg):
    U = env.util
    ny, nx = cfg["layout"]
    per = ny * nx
    my, mx = env.int("my", 1, 1024), env.int("mx", 1, 1024)
    other = {}
    dims = cfg["dims"].split()
    g = Geo(env, "q", dims, dict(cfg, zmax=16), my, mx, ny, nx, other)
    path = "store" if env.symbolic else tempfile.mkdtemp(prefix="verif")
    try:
        box, stores = {}, {}
        ranks = list(range(per)) + [per, 6 * per - 1]
        mons, log = {}, {}
        part = U.CubedSpherePartitioner(U.TilePartitioner((ny, nx)))
        when = times(0)
        log = []
        if cfg.get("before"):  # monitors of other partitioners and other variables are used first
            for k, lay in enumerate([(nx, ny), (ny + 1, nx + 2), (1, 1)]):
                m = U.ZarrMonitor(path + f".{k}", U.CubedSpherePartitioner(U.TilePartitioner(lay)), mode="w")
                size = {"y": 4 + k, "x": 5}
                m.store({"time": when[0], "q": U.Quantity(env.np.zeros([size.get(ax(d), 2) for d in dims]), tuple(dims), "m")})
                m = U.ZarrMonitor(path + f".{k}r", part, mode="w")
                m.store({"time": when[0], "q": U.Quantity(env.np.zeros([size.get(ax(d), 2) for d in dims[::-1]]), tuple(dims[::-1]), "m")})
        for r in ranks:
            mons[r] = U.ZarrMonitor(path, part, mode="w", mpi_comm=TurnComm(r, 6 * per, box))
        for t in range(2):
            for r in ranks:
                q = U.Quantity(env.np.zeros(tuple(g.rank)), tuple(dims), "m")
                if env.symbolic:
                    st = cfg["_stores"][path]
                    st.writer = (r, t)
                    mons[r].store({"time": when[t], "q": q})
                else:
                    spied_store(mons[r], {"time": when[t], "q": q}, (r, t), log)
        if env.symbolic:
            st = cfg["_stores"][path]
            chunks = st.arrays["q"].chunks
            shape = st.arrays["q"].shape
            log = [(w, (t,) + tuple(rest)) for w, name, t, rest in st.log if name == "q"]
        else:
            import zarr

            a = zarr.open_group(path, mode="r")["q"]
            chunks, shape = a.chunks, a.shape
        env.check(len(chunks) == len(shape), "there is a chunk size for each dimension")
        for c in chunks:
            env.check(c >= 1, "chunks are not empty", lambda: f"{chunks}")
        regions = []
        for w, key in log:
            reg = []
            for k, s in zip(key, shape):
                if isinstance(k, slice):
                    a = 0 if k.start is None else k.start
                    b = s if k.stop is None else k.stop
                    env.check(env.And(a >= 0, a <= b, b <= s, k.step in (None, 1)), "ranks write within the stored array", lambda: f"{w} {key}")
                    reg.append((a, b))
                else:
                    reg.append((k, k + 1))
            regions.append((w, reg))
        most = [2, 6] + [(ny if ax(d) == "y" else nx if ax(d) == "x" else 1) + 1 for d in dims]
        cache = {}

        def meet(d, a, b):
            """Whether the two ranges touch one chunk along a dimension."""
            key = (d, str(a), str(b))
            if key not in cache:
                c = chunks[d]
                if not few[d]:
                    cache[key] = env.And(a[0] < a[1], b[0] < b[1], a[0] // c <= (b[1] - 1) // c, b[0] // c <= (a[1] - 1) // c)
                    return cache[key]
                cache[key] = env.Or(*[
                    env.And(a[0] < (q + 1) * c, a[1] > q * c, b[0] < (q + 1) * c, b[1] > q * c) for q in range(most[d] + 1)])
            return cache[key]

        # with chunks about as large as a rank's share, there are few of them
        few = [bool(shape[d] <= (n + 1) * chunks[d]) for d, n in enumerate(most)]
        done = set()
        for k, (w1, r1) in enumerate(regions):
            for w2, r2 in regions[k + 1:]:
                same_place = w1[0] == w2[0] and w1[1] == w2[1]
                if same_place:
                    continue
                ms = [meet(d, a, b) for d, (a, b) in enumerate(zip(r1, r2))]
                if any(m is False for m in ms):
                    continue
                key = tuple(str(m) for m in ms)
                if key in done:
                    continue
                done.add(key)
                env.check(env.Not(env.And(*ms)), "no chunk is written by two ranks or holds two times", lambda: f"{w1} and {w2}: {r1} {r2} chunks {chunks}")
        env.cover("chunks")
    finally:
        if not env.symbolic:
            for p in [path] + [f"{path}.{k}{e}" for k in range(3) for e in ("", "r")]:
                shutil.rmtree(p, ignore_errors=True)


def spied_store(monitor, state, who, log):
    """Natively: record the writes to q while storing."""
    import zarr

    real = zarr.Array.__setitem__

    def spy(self, key, value):
        if self.basename == "q":
            log.append((who, key))
        return real(self, key, value)

    zarr.Array.__setitem__ = spy
    try:
        monitor.store(state)
    finally:
        zarr.Array.__setitem__ = real


def run(env, cfg):
    globals()["run_" + cfg["kind"]](env, cfg)


def configs(tier, prop):
    out = []

    def add(name, kind, **k):
        k.setdefault("max_models", 6)
        k.setdefault("max_paths", 200000)
        out.append(dict(name=name, kind=kind, **k))

    f8, f4, i4 = "float64", "float32", "int32"
    V = lambda n, d, u="m/s", t=f8: (n, d, u, t)  # noqa
    if prop == "C19":
        add("one rank per tile", "store", layout=[1, 1], stores=2, vars=[V("a", "y x"), V("b", "z y_interface x", "K", f4)], shuffle=True)
        add("three stores", "store", layout=[1, 1], stores=3, vars=[V("a", "y x_interface", "", i4)], reuse=True, calendar=1)
        add("one by two", "store", layout=[1, 2], stores=2, vars=[V("a", "z y x_interface"), V("z1", "x y", "", i4)], shuffle=True, calendar=2, mode=False)
        add("two by one", "store", layout=[2, 1], stores=2, vars=[V("a", "x y_interface", "Pa"), V("b", "y x", "K", f4)], sched="down", shuffle=True)
        add("two by two", "store", calendar=6, layout=[2, 2], stores=2, vars=[V("a", "y x")], order="F")
        add("two by two corners", "store", layout=[2, 2], stores=1, vars=[V("a", "y_interface x_interface")], sync=True)
        add("three dimensions", "store", calendar=3, layout=[1, 2], stores=1, vars=[V("a", "x z y"), V("b", "z x_interface y_interface")], reuse=True)
        add("odd names", "store", layout=[1, 2], stores=2, vars=[V("x", "x_wave y x"), V("tile", "x y ys_interface")])
        add("two monitors", "store", layout=[1, 1], stores=2, vars=[V("a", "y x"), V("b", "z y_interface x", "K", f4)], second=True)
        add("two monitors alone", "store", layout=[1, 1], stores=2, vars=[V("b", "x z"), V("a", "y x")], second=True, solo=True, calendar=2)
        add("column", "store", layout=[1, 1], stores=2, vars=[V("a", "z"), V("b", "y x")])
        add("only time", "store", calendar=4, layout=[1, 2], stores=3, vars=[])
        add("single process", "store", calendar=5, layout=[1, 2], stores=2, vars=[V("a", "z y x"), V("b", "x y_interface")], solo=True)
        add("element types", "store", layout=[1, 1], stores=2, vars=[V("a", "y x", "", "bool"), V("b", "y x", "1", "int8"), V("c", "x y", "", "uint16"), V("d", "y z", "", "int64"), V("e", "x", "", "uint8")])
        many = 1100 if tier == "quick" else 4200
        add("thousands of stores", "store", calendar=1, layout=[1, 1], stores=many, solo=True, look=[0, 1, 7, 511, 1023, 1024, 1025, many - 1], vars=[V("a", "y x"), V("b", "z", "", i4)],
            max_models=1)
        add("hundreds of stores by all", "store", calendar=0, layout=[1, 1], stores=many // 10, look=[0, 1, 99, many // 10 - 1], vars=[V("a", "x_interface y")], max_models=1, sched="down")
        add("refused", "refuse")
        add("refused 2", "refuse", calendar=4)
        add("refused by all", "store", layout=[1, 2], stores=3, vars=[V("a", "y x_interface"), V("u", "x y z")], bad=[[1, "u", "km"], [2, "a", "K"]])
        add("refused by all, late", "store", layout=[1, 1], stores=3, vars=[V("a", "y x")], bad=[[2, "a", ""]], sched="down", shuffle=True)
        if tier != "quick":
            for lay in ([1, 2], [2, 1], [2, 2], [1, 3]):
                for d in ("y x", "x y", "z y x", "y_interface z x", "x_interface y", "z y_interface x_interface", "x y_interface z"):
                    for s in ("up", "down"):
                        add(f"{lay} {d} {s}", "store", layout=lay, stores=3 if lay != [2, 2] else 2, vars=[V("q", d)], sched=s, sync=s == "down", reuse=s == "up")
    else:
        dims = ["y x", "x y", "z y x", "x z y", "y x z", "y_interface x", "z y x_interface", "y_interface x_interface", "z_interface x_interface y", "y z_soil x", "x_wave y x"]
        lays = [[1, 1], [1, 2], [2, 1], [2, 3], [3, 2], [4, 4], [5, 1], [1, 7], [8, 8]]
        add("history [1, 2] z y x_interface", "chunks", layout=[1, 2], dims="z y x_interface", before=True, max_models=2)
        add("history [3, 2] x y", "chunks", layout=[3, 2], dims="x y", before=True, max_models=2)
        if tier == "quick":
            for lay in lays:
                for k, d in enumerate(dims):
                    if lay == [2, 3] or (lay[0] * lay[1] <= 16 and (k + lay[0]) % 3 == 0) or k == (lay[0] + lay[1]) % len(dims):
                        add(f"{lay} {d}", "chunks", layout=lay, dims=d, max_models=2)
        else:
            for a in range(1, 9):
                for b in range(1, 9):
                    for d in dims if a * b <= 20 else dims[::3]:
                        add(f"[{a}, {b}] {d}", "chunks", layout=[a, b], dims=d, max_models=2)
    return out
