"""Halo updates: scalar, vector; shared set-up with other communication checks."""
from . import geometry as G
from .geometry import ax

BOUNDS = {
    "*": "cells per rank 1..256 (1..64 with other dimensions), halo width 1..8 not above the cells per rank, origins and trailing "
    "padding up to the halo width plus 6, other dimensions 1..8 long with optional padding (all "
    "symbolic); square layouts 1 to 3 on the cube (6, 24, 54 ranks); C and Fortran storage, "
    "float64 and float32; two rank schedules, buffers read at post time or at the latest moment; "
    "up to two updates in a row; up to five dimensions; halos narrower than the update on any side, and zero widths, which must be refused",
}
OUTSIDE = {
    "*": "halo wider than a rank's domain, larger layouts (C03 covers their neighbour relations), "
    "GPU arrays and gt4py storages",
}
ASSUMPTIONS = [
    "MPI point-to-point messages between two ranks with equal tag and communicator arrive in the "
    "order sent and carry the elements of a contiguous buffer in memory order",
    "numpy views, rot90, flip, slicing, transpose and assignment behave as their symbolic stand-ins "
    "do (each path's model is replayed with real numpy)",
]

KIND = {"y": 0, "x": 0, "y_interface": 1, "x_interface": 1}
EDGES = ("WEST", "EAST", "NORTH", "SOUTH")


def shape_of(env, dims, n, sizes, origin, trail):
    """extent and full shape per dimension"""
    extent, shape, orig = [], [], []
    for d in dims:
        if ax(d) in "xy":
            e = n + KIND[d]
            o = origin[ax(d)]
            t = trail[ax(d)]
        else:
            e = sizes[d]
            o, t = sizes.get(d + "_o", 0), sizes.get(d + "_t", 0)
        extent.append(e)
        orig.append(o)
        shape.append(o + e + t)
    return tuple(orig), tuple(extent), tuple(shape)


def make_quantity(env, name, dims, geo, dtype="float64", order="C", units="m"):
    orig, extent, shape = geo
    if order == "mixed":  # every other rank's arrays are stored in Fortran order
        order = "F" if int(name[1:]) % 2 else "C"
    if order == "strided":
        data, between = strided(env, name, shape, dtype)
    else:
        data, between = env.array(name, shape, dtype, order), None
    q = env.util.Quantity(data, dims, units, origin=orig, extent=extent)
    if between is not None:
        q.verif_base = between
    return q


def strided(env, name, shape, dtype):
    """a part of a larger array: every other element, the first dimension backwards"""
    base = env.array(name, tuple(2 * s + 1 for s in shape), dtype)
    data = base[tuple(slice(None, 0, -2) if k == 0 else slice(1, None, 2) for k in range(len(shape)))]
    return data, (base, env.snapshot(base))


def check_base(env, q, label):
    """elements between those of a strided array are nobody's to change"""
    if not hasattr(q, "verif_base"):
        return
    base, before = q.verif_base

    def body(*idx):
        ours = env.And(*[i % 2 == (0 if k == 0 else 1) for k, i in enumerate(idx)], idx[0] > 0)
        if ours:
            return True
        return env.same(env.value(base, *idx), before(*idx))

    env.check_forall([(f"b{k}", 0, s) for k, s in enumerate(base.shape)], body,
                     f"{label}: nothing between the array's elements changes")


def geometry_inputs(env, cfg, tag="", n=None, p=None):
    nmax = cfg.get("nmax", 256 if all(ax(d) in "xy" for d in cfg["dims"]) and len(cfg["dims"]) < 5 else 64)
    n = env.int("n", 1, nmax) if n is None else n
    if p is None:
        p = env.int("p" + tag, 1, cfg.get("pmax", 8))
        env.assume(p <= n)
    origin, trail = {}, {}
    for a in "yx":
        origin[a] = p + env.int(f"o{a}{tag}", 0, cfg.get("omax", 6))
        trail[a] = p + env.int(f"t{a}{tag}", 0, cfg.get("omax", 6))
    sizes = {}
    for d in cfg["dims"]:
        if ax(d) not in "xy" and d not in sizes:
            sizes[d] = env.int("n_" + d + tag, 1, cfg.get("zmax", 8))
            if cfg.get("zpad"):
                sizes[d + "_o"] = env.int("o_" + d + tag, 0, 2)
                sizes[d + "_t"] = env.int("t_" + d + tag, 0, 2)
    return n, p, origin, trail, sizes


def communicator(env, comm, L):
    u = env.util
    return u.CubedSphereCommunicator(
        comm, u.CubedSpherePartitioner(u.TilePartitioner([L, L] if L == 2 else (L, L)))  # namelists hold lists
    )


def region(dims, bname, n, p, extent):
    """compute-domain index ranges [lo, hi) of the halo across a boundary"""
    dy, dx = G.DIRS[bname]
    out = []
    for d, e in zip(dims, extent):
        s = {"y": dy, "x": dx}.get(ax(d), None) if ax(d) in "xy" else None
        if s is None or s == 0:
            out.append((0, e))
        elif s < 0:
            out.append((-p, 0))
        else:
            out.append((e, e + p))
    return out


def axes(dims):
    iy = [k for k, d in enumerate(dims) if ax(d) == "y"][0]
    ix = [k for k, d in enumerate(dims) if ax(d) == "x"][0]
    return iy, ix


def check_halo(env, rank, L, n, p, dims, data, geo, source, label):
    """Every halo point across every boundary holds what the oracle says and
    every other point of the array is as before.

    source(bname, y, x) -> list of (sign, reader, y2, x2): the value expected.
    """
    orig, extent, shape = geo
    iy, ix = axes(dims)
    for b in G.DIRS:
        if G.neighbour(rank, b, L) is None:
            continue
        reg = region(dims, b, n, p, extent)

        def body(*idx, b=b):
            y, x = idx[iy], idx[ix]
            sign, reader, y2, x2, orig2 = source(b, y, x)
            idx2 = list(idx)
            idx2[iy], idx2[ix] = y2, x2
            expect = reader(*[o + i for o, i in zip(orig2, idx2)])
            if sign < 0:
                expect = -expect
            got = env.value(data, *[o + i for o, i in zip(orig, idx)])
            return env.same(got, expect)

        env.check_forall(
            [(d, lo, hi) for d, (lo, hi) in zip(dims, reg)], body,
            f"{label}: halo across {b} holds the neighbour's values",
            lambda b=b: f"rank {rank} boundary {b}",
        )


def check_untouched(env, rank, L, n, p, dims, data, before, geo, label):
    orig, extent, shape = geo
    iy, ix = axes(dims)
    corners = [b for b in G.DIRS if len(b) > 5 and G.neighbour(rank, b, L) is None]

    def body(*idx):
        loc = [i - o for i, o in zip(idx, orig)]
        inside = env.And(*[env.And(a >= 0, a < e) for k, (a, e) in enumerate(zip(loc, extent))])
        zin = [env.And(a >= 0, a < e) for k, (a, e) in enumerate(zip(loc, extent)) if k not in (iy, ix)]
        near = env.And(
            *zin,
            *[env.And(loc[k] >= -p, loc[k] < extent[k] + p) for k in (iy, ix)],
        )
        corner = env.Or(
            *[
                env.And(
                    loc[iy] < 0 if G.DIRS[b][0] < 0 else loc[iy] >= extent[iy],
                    loc[ix] < 0 if G.DIRS[b][1] < 0 else loc[ix] >= extent[ix],
                )
                for b in corners
            ]
        )
        updated = env.And(near, env.Not(inside), env.Not(corner))
        if updated:
            return True
        return env.same(env.value(data, *idx), before(*idx))

    env.check_forall(
        [(d, 0, s) for d, s in zip(dims, shape)], body,
        f"{label}: nothing but the updated halo changes", lambda: f"rank {rank}",
    )


def ragged(env, cfg, R, p, geo, other, tag=""):
    """each rank's geometry: the same, or every other rank padded differently"""
    if not cfg.get("ragged"):
        return [geo] * R
    o = {a: p + env.int(f"o3{a}{tag}", 0, 2) for a in "yx"}
    t = {a: p + env.int(f"t3{a}{tag}", 0, 2) for a in "yx"}
    return [other(o, t) if r % 2 else geo for r in range(R)]


def earlier(env, cfg, n, p, origin, trail, sizes, R):
    """Communication of other variables that every rank does first: a function of the communicator and the rank."""
    todo = []
    for k, item in enumerate(cfg.get("first", [])):
        kind, *dimsets = item
        qs = []
        for j, dims in enumerate(dimsets):
            geo = shape_of(env, dims, n, {d: sizes.get(d, 2) for d in dims}, origin, trail)
            qs.append([make_quantity(env, f"first{k}{j}_{r}", dims, geo) for r in range(R)])
        todo.append((kind, qs))

    def refused(f, *a):
        try:
            f(*a)
        except ValueError:
            return
        env.fail("an update that does not fit is refused")

    def go(c, r):
        for kind, qs in todo:
            mine = [q[r] for q in qs]
            if kind == "scalar":
                c.halo_update(*mine, n_points=p)
            elif kind == "narrower":
                c.halo_update(*mine, n_points=1)
            elif kind == "vector":
                c.vector_halo_update(*mine, n_points=p)
            elif kind == "sync":
                c.synchronize_vector_interfaces(*mine)
            elif kind == "no width":
                refused(c.halo_update, mine[0], 0)
                refused(c.vector_halo_update, *mine, 0)
            elif kind == "too wide":
                refused(c.halo_update, mine[0], origin["x"] + 1)
                refused(c.vector_halo_update, *mine, origin["x"] + 1)
            elif kind == "no c grid":
                refused(c.synchronize_vector_interfaces, *mine)

    if any(kind == "too wide" for kind, _ in todo):
        env.assume(origin["x"] + 1 <= n)
    return go


def refusals(cfg):
    """whether some update is refused midway, on all ranks"""
    return cfg.get("refused") or any(f[0] == "too wide" for f in cfg.get("first", []))


def run_scalar(env, cfg):
    L = cfg["L"]
    dims = cfg["dims"]
    n, p, origin, trail, sizes = geometry_inputs(env, cfg)
    R = 6 * L * L
    first = earlier(env, cfg, n, p, origin, trail, sizes, R)
    geo = ragged(env, cfg, R, p, shape_of(env, dims, n, sizes, origin, trail), lambda o, t: shape_of(env, dims, n, sizes, o, t))
    qs = [
        make_quantity(env, f"q{r}", dims, geo[r], cfg.get("dtype", "float64"), cfg.get("order", "C"))
        for r in range(R)
    ]
    before = [env.snapshot(q.data) for q in qs]
    w = env.world(R, capture=cfg.get("capture", "eager"), order=order_of(cfg, R))
    if cfg.get("refused"):
        too_wide = origin["x"] + 1
        env.assume(too_wide <= n)

    def program(r):
        def f(comm):
            c = communicator(env, comm, L)
            first(c, r)
            if cfg.get("refused"):  # first updates which are refused, as on all ranks
                for bad in (0, too_wide):
                    try:
                        c.halo_update(qs[r], n_points=bad)
                        env.fail("an update that does not fit is refused")
                    except ValueError:
                        pass
            for _ in range(cfg.get("repeat", 1)):
                c.halo_update(qs[r], n_points=p)

        return f

    w.run({r: program(r) for r in range(R)})
    env.check(refusals(cfg) or w.leftover() == 0, "scalar: every message sent is received")
    check_scalar(env, cfg, L, R, n, p, dims, geo, qs, before)
    env.cover(f"scalar L={L} {dims}")


def check_scalar(env, cfg, L, R, n, p, dims, geo, qs, before):
    ky, kx = [KIND[d] for d in dims if ax(d) == "y"][0], [KIND[d] for d in dims if ax(d) == "x"][0]
    for r in ranks_to_check(cfg, R):

        def source(b, y, x, r=r):
            r2, y2, x2, turn = G.source_point(r, b, L, n, y, x, ky, kx)
            return 1, before[r2], y2, x2, geo[r2][0]

        check_halo(env, r, L, n, p, dims, qs[r].data, geo[r], source, "scalar")
        check_untouched(env, r, L, n, p, dims, qs[r].data, before[r], geo[r], "scalar")
        check_base(env, qs[r], "scalar")


def vec_dims(dims):
    """dims of the two components from a template with Y/X meaning 'u: first'"""
    return dims


def turn_source(before, dimsets, geos, L, n, comp):
    """Oracle for one component: value across boundary b of rank r."""
    ky = {c: [KIND[d] for d in dimsets[c] if ax(d) == "y"][0] for c in "xy"}
    kx = {c: [KIND[d] for d in dimsets[c] if ax(d) == "x"][0] for c in "xy"}

    def make(r):
        def source(b, y, x):
            r2, y2, x2, turn = G.source_point(r, b, L, n, y, x, ky[comp], kx[comp])
            cu, cv = turn[comp]
            other = "x" if cu else "y"
            return (cu or cv), before[other][r2], y2, x2, geos[other][r2][0]

        return source

    return make


def vector_inputs(env, cfg):
    L = cfg["L"]
    dimsets = {"x": cfg["xdims"], "y": cfg["ydims"]}
    both = dict(cfg, dims=cfg["xdims"] + cfg["ydims"])
    n, p, origin, trail, sizes = geometry_inputs(env, both)
    R = 6 * L * L
    geos = {"x": shape_of(env, dimsets["x"], n, sizes, origin, trail)}
    if cfg.get("other_geometry"):
        o2 = {a: p + env.int("o2" + a, 0, 2) for a in "yx"}
        t2 = {a: p + env.int("t2" + a, 0, 2) for a in "yx"}
        geos["y"] = shape_of(env, dimsets["y"], n, sizes, o2, t2)
    else:
        geos["y"] = shape_of(env, dimsets["y"], n, sizes, origin, trail)
    geos = {c: ragged(env, cfg, R, p, geos[c], lambda o, t, c=c: shape_of(env, dimsets[c], n, sizes, o, t), c) for c in "xy"}
    if cfg.get("ragged"):
        geos["y"] = geos["y"][1:] + geos["y"][:1]
    qs = {
        c: [
            make_quantity(env, f"{c}{r}", dimsets[c], geos[c][r], cfg.get("dtype", "float64"), cfg.get("order", "C"))
            for r in range(R)
        ]
        for c in "xy"
    }
    before = {c: [env.snapshot(q.data) for q in qs[c]] for c in "xy"}
    first = earlier(env, cfg, n, p, origin, trail, sizes, R)
    return L, R, n, p, dimsets, geos, qs, before, first


def run_vector(env, cfg):
    L, R, n, p, dimsets, geos, qs, before, first = vector_inputs(env, cfg)
    w = env.world(R, capture=cfg.get("capture", "eager"), order=order_of(cfg, R))

    def program(r):
        def f(comm):
            c = communicator(env, comm, L)
            first(c, r)
            for _ in range(cfg.get("repeat", 1)):
                c.vector_halo_update(qs["x"][r], qs["y"][r], n_points=p)

        return f

    w.run({r: program(r) for r in range(R)})
    env.check(refusals(cfg) or w.leftover() == 0, "vector: every message sent is received")
    check_vector(env, cfg, L, R, n, p, dimsets, geos, qs, before)
    env.cover(f"vector L={L} {cfg['xdims']} {cfg['ydims']}")


def check_vector(env, cfg, L, R, n, p, dimsets, geos, qs, before):
    for comp in "xy":
        src = turn_source(before, dimsets, geos, L, n, comp)
        for r in ranks_to_check(cfg, R):
            check_halo(env, r, L, n, p, dimsets[comp], qs[comp][r].data, geos[comp][r], src(r),
                       f"vector {comp}-component")
            check_untouched(env, r, L, n, p, dimsets[comp], qs[comp][r].data, before[comp][r],
                            geos[comp][r], f"vector {comp}-component")
            check_base(env, qs[comp][r], f"vector {comp}-component")


def run_sync(env, cfg):
    """Interface synchronisation of a vector given on tile edges."""
    L, R, n, p, dimsets, geos, qs, before, first = vector_inputs(env, cfg)
    w = env.world(R, capture=cfg.get("capture", "eager"), order=order_of(cfg, R))

    def program(r):
        def f(comm):
            c = communicator(env, comm, L)
            first(c, r)
            for _ in range(cfg.get("repeat", 1)):
                c.synchronize_vector_interfaces(qs["x"][r], qs["y"][r])

        return f

    w.run({r: program(r) for r in range(R)})
    env.check(refusals(cfg) or w.leftover() == 0, "synchronize: every message sent is received")
    check_sync(env, cfg, L, R, n, p, dimsets, geos, qs, before)
    env.cover(f"synchronize L={L} {cfg['xdims']} {cfg['ydims']}")


def check_sync(env, cfg, L, R, n, p, dimsets, geos, qs, before):
    for comp in "xy":
        dims = dimsets[comp]
        iy, ix = axes(dims)
        edge, axis = ("NORTH", iy) if comp == "x" else ("EAST", ix)
        src = turn_source(before, dimsets, geos, L, n, comp)
        for r in ranks_to_check(cfg, R):
            data = qs[comp][r].data
            source = src(r)
            orig, extent, shape = geos[comp][r]

            def body(*idx):
                idx = list(idx)
                idx.insert(axis, extent[axis] - 1)
                sign, reader, y2, x2, orig2 = source(edge, idx[iy], idx[ix])
                idx2 = list(idx)
                idx2[iy], idx2[ix] = y2, x2
                expect = reader(*[o + i for o, i in zip(orig2, idx2)])
                if sign < 0:
                    expect = -expect
                got = env.value(data, *[o + i for o, i in zip(orig, idx)])
                return env.same(got, expect)

            env.check_forall(
                [(d, 0, e) for k, (d, e) in enumerate(zip(dims, extent)) if k != axis], body,
                f"synchronize: shared edge of the {comp}-component holds the neighbour's values",
                lambda r=r: f"rank {r} edge {edge}",
            )

            def rest(*idx):
                on = [i == o + e - 1 if k == axis else env.And(i >= o, i < o + e)
                      for k, (i, o, e) in enumerate(zip(idx, orig, extent))]
                if env.And(*on):
                    return True
                return env.same(env.value(data, *idx), before[comp][r](*idx))

            env.check_forall(
                [(d, 0, s) for d, s in zip(dims, shape)], rest,
                f"synchronize: nothing but the shared edge of the {comp}-component changes",
                lambda r=r: f"rank {r}",
            )
            check_base(env, qs[comp][r], "synchronize")


def order_of(cfg, R):
    o = cfg.get("sched", "up")
    return list(range(R)) if o == "up" else list(reversed(range(R)))


def ranks_to_check(cfg, R):
    return range(R)


def run_refuse(env, cfg):
    """A vector that is not on the C grid is refused and nothing is sent."""
    R = 6
    n = env.int("n", 1, 64)
    Y, X = ["y", "y_interface"], ["x", "x_interface"]
    xd = [env.choice("xy", Y), env.choice("xx", X)]
    yd = [env.choice("yy", Y), env.choice("yx", X)]
    env.assume(not (xd == ["y_interface", "x"] and yd == ["y", "x_interface"]))
    ext = lambda d: tuple(n + KIND[k] for k in d)  # noqa
    w = env.world(R)
    refused = []
    # every combination that is not one component normal to each edge
    xs = [make_quantity(env, f"x{r}", xd, ((0, 0), ext(xd), ext(xd))) for r in range(R)]
    ys = [make_quantity(env, f"y{r}", yd, ((0, 0), ext(yd), ext(yd))) for r in range(R)]
    before = [(env.snapshot(a.data), env.snapshot(b.data)) for a, b in zip(xs, ys)]

    def program(r):
        def f(comm):
            c = communicator(env, comm, 1)
            try:
                c.synchronize_vector_interfaces(xs[r], ys[r])
            except ValueError:
                refused.append(r)

        return f

    w.run({r: program(r) for r in range(R)})
    env.check(len(refused) == R, "synchronize: a vector off the C grid is refused", f"{xd} {yd}")
    env.check(w.leftover() == 0, "synchronize: nothing is sent for a refused vector")
    for r in range(R):
        for q, b in ((xs[r], before[r][0]), (ys[r], before[r][1])):
            env.check_forall([(f"d{k}", 0, s) for k, s in enumerate(q.data.shape)],
                             lambda *i, q=q, b=b: env.same(env.value(q.data, *i), b(*i)),
                             "synchronize: a refused vector keeps its values")
    env.cover("refused")


def run_narrow(env, cfg):
    """An update of no width, or wider than the halo of the arrays, is refused and nothing changes."""
    L, both = cfg["L"], [cfg["dims"]] + ([cfg["ydims"]] if "ydims" in cfg else [])
    R = 6 * L * L
    n, p = env.int("n", 1, 64), env.int("p", 0, 5)
    env.assume(p <= n)
    o = {a: env.int("o" + a, 0, 6) for a in "yx"}
    t = {a: env.int("t" + a, 0, 6) for a in "yx"}
    fits = env.And(p > 0, *[v >= p for v in (*o.values(), *t.values())])
    env.assume(env.Not(fits))
    sizes = {d: 2 for d in cfg["dims"] if ax(d) not in "xy"}
    qs = [[make_quantity(env, f"{'xy'[k]}{r}", d, shape_of(env, d, n, sizes, o, t)) for k, d in enumerate(both)] for r in range(R)]
    before = [[env.snapshot(q.data) for q in c] for c in qs]
    w = env.world(R)
    refused = []

    def program(r):
        def f(comm):
            c = communicator(env, comm, L)
            try:
                if len(both) == 1:
                    c.halo_update(qs[r][0], n_points=p)
                else:
                    c.vector_halo_update(*qs[r], n_points=p)
            except ValueError:  # among them OutOfBoundsError
                refused.append(r)

        return f

    w.run({r: program(r) for r in range(R)})
    env.check(len(refused) == R, "an update of no width or wider than the halo is refused", lambda: f"{refused} of {R} ranks: n {n} width {p} origin {o} after {t}")
    for r in range(R):
        for q, b in zip(qs[r], before[r]):
            env.check_forall([(f"d{k}", 0, s) for k, s in enumerate(q.data.shape)],
                             lambda *i, q=q, b=b: env.same(env.value(q.data, *i), b(*i)),
                             "an update that is refused leaves the data as they are")
    env.cover("too wide refused")


def run(env, cfg):
    {"scalar": run_scalar, "vector": run_vector, "sync": run_sync, "refuse": run_refuse, "narrow": run_narrow}[cfg["kind"]](env, cfg)


def configs(tier, prop=None):
    out = []
    deep = tier == "thorough"

    def add(name, kind, **k):
        out.append(dict(name=name, kind=kind, **k))

    if prop == "C04":
        S = "scalar"
        add("L1-yx-eager", S, L=1, dims=["y", "x"], repeat=2)
        add("L2-zyx-late", S, L=2, dims=["z", "y", "x"], capture="late")
        add("L2-xyz-F", S, L=2, dims=["x", "y", "z"], order="F", sched="down", dtype="float32")
        add("L1-xzy", S, L=1, dims=["x", "z", "y"], zpad=True, capture="late")
        add("L3-yx", S, L=3, dims=["y", "x"], sched="down")
        add("L2-iface-zyx", S, L=2, dims=["z", "y_interface", "x_interface"])
        add("L1-iface-xy", S, L=1, dims=["x_interface", "y_interface"], zpad=True, capture="late")
        add("L1-4d", S, L=1, dims=["tracer", "z", "y", "x"], zpad=True)
        add("L1-zyx-F", S, L=1, dims=["z", "y", "x"], order="F", pmax=2)
        add("L1-yxz-mixed", S, L=1, dims=["y", "x", "z"], order="mixed", capture="late", pmax=2)
        add("L1-5d", S, L=1, dims=["tracer", "y", "z", "x", "bin"], zmax=3, capture="late")
        add("L1-odd-names", S, L=1, dims=["y_wave", "x", "xs_interface", "y"], zmax=2, pmax=2)
        add("L1-after-refusals", S, L=1, dims=["x", "y"], refused=True, pmax=3)
        YX, XY = ["y", "x"], ["x", "y"]
        add("L1-after-other-order", S, L=1, dims=XY, pmax=3, omax=1, first=[["scalar", YX], ["narrower", XY]])
        add("L1-after-others", S, L=1, dims=["y", "z", "x"], pmax=2, omax=1, zmax=2, capture="late",
            first=[["scalar", ["x", "z", "y"]], ["scalar", ["z", "y", "x"]], ["scalar", ["y_interface", "z", "x_interface"]], ["sync", ["z", "y_interface", "x"], ["z", "y", "x_interface"]]])
        add("L2-after-iface", S, L=2, dims=["y_interface", "x_interface"], pmax=2, omax=1, first=[["vector", XY, XY], ["scalar", YX]])
        add("L1-strided", S, L=1, dims=["z", "y", "x"], order="strided", capture="late", pmax=2, zmax=2)
        add("L1-ragged", S, L=1, dims=["y_interface", "z", "x_interface"], ragged=True)
        add("L2-ragged", S, L=2, dims=["x", "y"], ragged=True, capture="late", pmax=2, order="F")
        add("L1-too-wide", "narrow", L=1, dims=["z", "y", "x"])
        add("L1-too-wide-iface", "narrow", L=1, dims=["x_interface", "y_interface"])
        add("L2-too-wide", "narrow", L=2, dims=["y", "x_interface"])
        if deep:
            add("L2-zyx-mixed", S, L=2, dims=["z", "y", "x"], order="mixed")
            add("L4-yx", S, L=4, dims=["y", "x"], nmax=128, pmax=8)
            add("L3-iface-zyx-late", S, L=3, dims=["z", "y_interface", "x_interface"], capture="late")
            add("L3-xyz-F-late", S, L=3, dims=["x", "y", "z"], capture="late", order="F", repeat=2)
            add("L2-mixed", S, L=2, dims=["y_interface", "x_interface", "z", "tracer"], zpad=True, sched="down")
            add("L1-wide", S, L=1, dims=["y", "x"], nmax=512, pmax=16, omax=16)
    if prop == "C05":
        V = "vector"
        add("L1-yx", V, L=1, xdims=["y", "x"], ydims=["y", "x"], repeat=2)
        add("L2-yx-late", V, L=2, xdims=["y", "x"], ydims=["y", "x"], capture="late")
        add("L1-zyx-c", V, L=1, xdims=["z", "y", "x_interface"], ydims=["z", "y_interface", "x"], zpad=True)
        add("L2-zyx-d", V, L=2, xdims=["z", "y_interface", "x"], ydims=["z", "y", "x_interface"], sched="down")
        add("L1-xzy-d", V, L=1, xdims=["x", "z", "y_interface"], ydims=["x_interface", "z", "y"], capture="late")
        add("L1-iface", V, L=1, xdims=["x_interface", "y_interface"], ydims=["x_interface", "y_interface"], order="F")
        add("L1-geo", V, L=1, xdims=["y", "x"], ydims=["y", "x"], other_geometry=True)
        add("L2-xyz-d-late", V, L=2, xdims=["x", "y_interface", "z"], ydims=["x_interface", "y", "z"], capture="late", dtype="float32")
        add("L1-zyx-mixed", V, L=1, xdims=["z", "y", "x"], ydims=["z", "y", "x"], order="mixed", pmax=2, capture="late")
        add("L1-5d", V, L=1, xdims=["tracer", "y", "z", "x_interface", "bin"], ydims=["tracer", "y_interface", "z", "x", "bin"], zmax=3, capture="late")
        add("L1-odd-names", V, L=1, xdims=["x_wave", "y_interface", "x"], ydims=["x_wave", "y", "x_interface"], zmax=2, pmax=2)
        add("L1-strided", V, L=1, xdims=["y", "x_interface"], ydims=["y_interface", "x"], order="strided", pmax=2)
        add("L1-after-others", V, L=1, xdims=["x", "y"], ydims=["x", "y"], pmax=2, omax=1,
            first=[["vector", ["y", "x"], ["y", "x"]], ["scalar", ["x", "y"]], ["no width", ["x", "y"], ["x", "y"]]])
        add("L1-after-refusals", V, L=1, xdims=["y_interface", "x"], ydims=["y", "x_interface"], pmax=2, omax=1, capture="late",
            first=[["too wide", ["y", "x"], ["y", "x"]], ["vector", ["y", "x_interface"], ["y_interface", "x"]]])
        add("L1-ragged", V, L=1, xdims=["y_interface", "x"], ydims=["y", "x_interface"], ragged=True, capture="late", pmax=2)
        add("L1-too-wide", "narrow", L=1, dims=["y", "x"], ydims=["y", "x"])
        add("L1-too-wide-d", "narrow", L=1, dims=["y_interface", "z", "x"], ydims=["y", "z", "x_interface"])
        if deep:
            add("L3-yx", V, L=3, xdims=["y", "x"], ydims=["y", "x"], nmax=128, pmax=8)
            add("L3-zyx-d-late", V, L=3, xdims=["z", "y_interface", "x"], ydims=["z", "y", "x_interface"], capture="late")
            add("L3-zyx-c", V, L=3, xdims=["z", "y", "x_interface"], ydims=["z", "y_interface", "x"], sched="down")
            add("L2-iface-F", V, L=2, xdims=["y_interface", "x_interface", "z"], ydims=["y_interface", "x_interface", "z"], order="F", repeat=2)
            add("L2-geo-late", V, L=2, xdims=["y", "x"], ydims=["y", "x"], other_geometry=True, capture="late")
    if prop == "C06":
        V = "sync"
        add("L1-yx", V, L=1, xdims=["y_interface", "x"], ydims=["y", "x_interface"], repeat=2)
        add("L2-yx-late", V, L=2, xdims=["y_interface", "x"], ydims=["y", "x_interface"], capture="late")
        add("L1-xy", V, L=1, xdims=["x", "y_interface"], ydims=["x_interface", "y"], zpad=True, order="F")
        add("L1-zyx", V, L=1, xdims=["z", "y_interface", "x"], ydims=["z", "y", "x_interface"], zpad=True)
        add("L2-xyz", V, L=2, xdims=["x", "y_interface", "z"], ydims=["x_interface", "y", "z"], sched="down")
        add("L1-xzy", V, L=1, xdims=["x", "z", "y_interface"], ydims=["x_interface", "z", "y"], other_geometry=True)
        add("L3-yx", V, L=3, xdims=["y_interface", "x"], ydims=["y", "x_interface"], sched="down")
        add("L1-zyx-mixed", V, L=1, xdims=["z", "y_interface", "x"], ydims=["z", "y", "x_interface"], order="mixed", capture="late")
        add("L1-odd-names", V, L=1, xdims=["y_wave", "y_interface", "x"], ydims=["y_wave", "y", "x_interface"], zpad=True)
        add("L1-strided", V, L=1, xdims=["z", "y_interface", "x"], ydims=["z", "y", "x_interface"], order="strided")
        add("L2-ragged", V, L=2, xdims=["y_interface", "x"], ydims=["y", "x_interface"], ragged=True, capture="late")
        add("L1-after-others", V, L=1, xdims=["x", "y_interface"], ydims=["x_interface", "y"], pmax=2, omax=1, capture="late",
            first=[["sync", ["y_interface", "x"], ["y", "x_interface"]], ["no c grid", ["x_interface", "y"], ["x", "y_interface"]], ["vector", ["x", "y_interface"], ["x_interface", "y"]]])
        add("not-c-grid", "refuse")
        if deep:
            add("L4-yx", V, L=4, xdims=["y_interface", "x"], ydims=["y", "x_interface"], nmax=256)
            add("L3-xyz-late", V, L=3, xdims=["x", "y_interface", "z"], ydims=["x_interface", "y", "z"], capture="late")
            add("L2-zyx-geo", V, L=2, xdims=["z", "y_interface", "x"], ydims=["z", "y", "x_interface"], other_geometry=True, zpad=True)
    return out
