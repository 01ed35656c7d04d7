"""Scatter and gather of quantities and of whole states."""
import datetime

from . import halo
from .geometry import ax

BOUNDS = {
    "*": "tile layouts up to 2 x 3 and cube layouts up to 2 x 2 (24 ranks); cells per rank, "
    "other sizes, origins and halo widths symbolic (up to 64, 5 and 6); float64/float32/int32 "
    "data; C and Fortran storage; both buffer-capture moments and two rank schedules",
}
OUTSIDE = {
    "*": "sizes that do not divide by the layout; a receive quantity of another dtype or "
    "dimension order than the sent one; states whose ranks list variables in different orders",
}
ASSUMPTIONS = [
    "MPI collectives move the elements of contiguous buffers in memory order (Scatter, Gather) "
    "and deliver independent copies of Python objects (bcast)",
]


class Geo:
    """One variable: sizes per rank and on the whole tile or cube."""

    def __init__(self, env, tag, dims, cfg, my, mx, ny, nx, other):
        self.dims = dims
        self.tile, self.rank = [], []
        for d in dims:
            if ax(d) == "y":
                t, r = ny * my, my
            elif ax(d) == "x":
                t, r = nx * mx, mx
            else:
                if d not in other:
                    other[d] = env.int("n_" + d, 1, cfg.get("zmax", 5))
                t = r = other[d]
            if d in ("y_interface", "x_interface"):
                t, r = t + 1, r + 1
            self.tile.append(t)
            self.rank.append(r)


def padded(env, tag, extent, pad):
    """origin and shape with symbolic padding on the padded axes"""
    origin, shape = [], []
    for k, e in enumerate(extent):
        if k in pad:
            o, t = env.int(f"o{tag}{k}", 0, 6), env.int(f"t{tag}{k}", 0, 6)
        else:
            o = t = 0
        origin.append(o)
        shape.append(o + e + t)
    return tuple(origin), tuple(shape)


def ranks_padded(env, cfg, tag, extent, axes, R):
    """origin and shape for every rank: alike, or of two kinds (ragged)"""
    kinds = [padded(env, tag, extent, axes)]
    if cfg.get("ragged"):
        kinds.append(padded(env, tag + "2", extent, axes))
    return [kinds[r % len(kinds)] for r in range(R)]


UNITS = " kg  m**-2 "  # kept letter for letter


def quantity(env, name, dims, extent, origin, shape, cfg, units=UNITS):
    order = cfg.get("order", "C")
    if name.startswith("recv"):
        order = cfg.get("rorder", order)
    dtype = cfg.get("dtype", "float64")
    if name.startswith("recv"):
        dtype = cfg.get("rdtype", dtype)
    if order == "strided":  # a part of a larger array
        data, between = halo.strided(env, name, shape, dtype)
    else:
        data, between = env.array(name, shape, dtype, order), None
    q = env.util.Quantity(data, tuple(dims), units, origin=origin, extent=tuple(extent))
    if between is not None:
        q.verif_base = between
    return q


def communicator(env, cfg, comm):
    u = env.util
    tp = u.TilePartitioner(list(cfg["layout"]) if cfg.get("listed") else tuple(cfg["layout"]))
    if cfg.get("cube"):
        return u.CubedSphereCommunicator(comm, u.CubedSpherePartitioner(tp))
    return u.TileCommunicator(comm, tp)


def world_of(env, cfg):
    ny, nx = cfg["layout"]
    R = ny * nx * (6 if cfg.get("cube") else 1)
    order = list(range(R))
    if cfg.get("sched") == "down":
        order.reverse()
    return ny, nx, R, env.world(R, capture=cfg.get("capture", "eager"), order=order,
                                sync=cfg.get("sync", False))


def start_of(cfg, geo, r, my, mx):
    """index of the rank's first point in the whole domain, per dimension"""
    ny, nx = cfg["layout"]
    t, s = divmod(r, ny * nx)
    j, i = divmod(s, nx)
    st = [j * my if ax(d) == "y" else i * mx if ax(d) == "x" else 0 for d in geo.dims]
    return t, st


def compare_rank(env, cfg, geo, r, my, mx, local, lorigin, reader, gorigin, label):
    t, st = start_of(cfg, geo, r, my, mx)
    lead = (t,) if cfg.get("cube") else ()

    def body(*idx):
        g = lead + tuple(a + b for a, b in zip(st, idx))
        return env.same(
            env.value(local, *[o + i for o, i in zip(lorigin, idx)]),
            reader(*[o + i for o, i in zip(gorigin, g)]),
        )

    env.check_forall([(d, 0, e) for d, e in zip(geo.dims, geo.rank)], body, label,
                     lambda: f"rank {r}")


def check_outside(env, dims, data, before, origin, extent, label, who):
    def body(*idx):
        if env.And(*[env.And(i >= o, i < o + e) for i, o, e in zip(idx, origin, extent)]):
            return True
        return env.same(env.value(data, *idx), before(*idx))

    env.check_forall([(f"d{k}", 0, s) for k, s in enumerate(data.shape)], body, label, lambda: who)


def check_all(env, data, before, label, who):
    env.check_forall(
        [(f"d{k}", 0, s) for k, s in enumerate(data.shape)],
        lambda *idx: env.same(env.value(data, *idx), before(*idx)), label, lambda: who,
    )


def check_meta(env, q, dims, extent, units, dtype, label):
    env.check(tuple(q.dims) == tuple(dims), label + ": dimensions", lambda: f"{q.dims}")
    env.check(len(q.extent) == len(extent), label + ": extent")
    for a, b in zip(q.extent, extent):
        env.check(a == b, label + ": extent", lambda: f"{q.extent} not {extent}")
    env.check(q.units == units, label + ": units", lambda: f"{q.units}")
    env.check(q.data.dtype == dtype, label + ": dtype", lambda: f"{q.data.dtype}")
    env.check(env.device is None or isinstance(q.data, env.device), label + ": the data stays on the device")


def fresh(env, out, others, label, who):
    """what was not given to receive into is the receiver's own"""
    if env.device is not None:
        return
    for x in others:
        env.check(out is not x and not env.shares(out.data, x.data),
                  label + ": the result shares no memory with other quantities", lambda: who)


def base(env, cfg):
    ny, nx, R, w = world_of(env, cfg)
    my, mx = env.int("my", 1, 64), env.int("mx", 1, 64)
    other = {}
    return ny, nx, R, w, my, mx, other


def whole(env, cfg, geo, name, tag):
    dims, ext = list(geo.dims), list(geo.tile)
    pad = set(range(len(ext))) if cfg.get("pad", True) else set()
    if cfg.get("cube"):
        dims, ext = ["tile"] + dims, [6] + ext
        pad = {k + 1 for k in pad}
    origin, shape = padded(env, tag, ext, pad)
    q = quantity(env, name, dims, ext, origin, shape, cfg)
    return q, env.snapshot(q.data), dims, ext, origin


def run_scatter(env, cfg):
    ny, nx, R, w, my, mx, other = base(env, cfg)
    geo = Geo(env, "", cfg["dims"], cfg, my, mx, ny, nx, other)
    q, before, gdims, gext, gorigin = whole(env, cfg, geo, "whole", "g")
    recv = {}
    if cfg.get("prealloc"):
        pads = ranks_padded(env, cfg, "r", geo.rank, set(range(len(geo.rank))), R)
        for r in range(R):
            origin, shape = pads[r]
            if cfg["prealloc"] == "some" and r % 2:
                continue
            recv[r] = quantity(env, f"recv{r}", geo.dims, geo.rank, origin, shape, cfg)
        rbefore = {r: env.snapshot(x.data) for r, x in recv.items()}

    def program(r):
        def f(comm):
            c = communicator(env, cfg, comm)
            out = None
            for _ in range(cfg.get("repeat", 1)):
                out = c.scatter(q if r == 0 else None, recv.get(r))
            return out

        return f

    res = w.run({r: program(r) for r in range(R)})
    for r in range(R):
        out = res[r]
        if r in recv:
            env.check(out is recv[r], "scatter: returns the quantity it was given")
            check_outside(env, geo.dims, out.data, rbefore[r], pads[r][0], geo.rank,
                          "scatter: halo of the receiving quantity untouched", f"rank {r}")
        else:
            fresh(env, out, [q] + [res[k] for k in range(r)], "scatter", f"rank {r}")
        check_meta(env, out, geo.dims, geo.rank, UNITS, q.data.dtype, "scatter")
        compare_rank(env, cfg, geo, r, my, mx, out.data, out.origin, before, gorigin,
                     "scatter: every rank holds its share")
    check_all(env, q.data, before, "scatter: the sent quantity is unchanged", "root")
    for x in [q] + list(recv.values()):
        halo.check_base(env, x, "scatter")
    env.cover(f"scatter cube={bool(cfg.get('cube'))} prealloc={cfg.get('prealloc')}")


def run_gather(env, cfg):
    ny, nx, R, w, my, mx, other = base(env, cfg)
    geo = Geo(env, "", cfg["dims"], cfg, my, mx, ny, nx, other)
    pad = set(range(len(geo.rank))) if cfg.get("pad", True) else set()
    pads = ranks_padded(env, cfg, "s", geo.rank, pad, R)
    sent = [quantity(env, f"s{r}", geo.dims, geo.rank, *pads[r], cfg) for r in range(R)]
    before = [env.snapshot(s.data) for s in sent]
    recv = None
    if cfg.get("prealloc"):
        recv, rbefore, gdims, gext, gorigin = whole(env, cfg, geo, "recv", "g")
    else:
        gdims = (["tile"] if cfg.get("cube") else []) + list(geo.dims)
        gext = ([6] if cfg.get("cube") else []) + list(geo.tile)

    def program(r):
        def f(comm):
            c = communicator(env, cfg, comm)
            out = None
            for _ in range(cfg.get("repeat", 1)):
                out = c.gather(sent[r], recv if r == 0 else None)
            return out

        return f

    res = w.run({r: program(r) for r in range(R)})
    for r in range(1, R):
        env.check(res[r] is None, "gather: only the root receives")
    out = res[0]
    if recv is not None:
        env.check(out is recv, "gather: returns the quantity it was given")
        check_outside(env, gdims, out.data, rbefore, gorigin, gext,
                      "gather: halo of the receiving quantity untouched", "root")
    else:
        fresh(env, out, sent, "gather", "root")
    check_meta(env, out, gdims, gext, UNITS, recv.data.dtype if recv is not None else sent[0].data.dtype, "gather")

    def local(r):
        return lambda *i: before[r](*[o + k for o, k in zip(pads[r][0], i)])

    check_gathered(env, cfg, geo, R, my, mx, out.data, out.origin, [local(r) for r in range(R)], (0,) * len(geo.rank))
    for r in range(R):
        check_all(env, sent[r].data, before[r], "gather: the sent quantities are unchanged", f"rank {r}")
    for x in sent + ([recv] if recv is not None else []):
        halo.check_base(env, x, "gather")
    env.cover(f"gather cube={bool(cfg.get('cube'))} prealloc={bool(recv is not None)}")


def check_gathered(env, cfg, geo, R, my, mx, data, gorigin, before, origin):
    """Every point of the whole equals the value of a rank that holds it."""
    ny, nx = cfg["layout"]
    interface = any(d in ("x_interface", "y_interface") for d in geo.dims) or not (
        {"x", "y"} <= {ax(d) for d in geo.dims}
    )
    if not interface:
        for r in range(R):
            t, st = start_of(cfg, geo, r, my, mx)
            lead = (t,) if cfg.get("cube") else ()

            def body(*idx, r=r, st=st, lead=lead):
                g = lead + tuple(a + b for a, b in zip(st, idx))
                return env.same(
                    env.value(data, *[o + i for o, i in zip(gorigin, g)]),
                    before[r](*[o + i for o, i in zip(origin, idx)]),
                )

            env.check_forall([(d, 0, e) for d, e in zip(geo.dims, geo.rank)], body,
                             "gather: the whole holds every rank's share", lambda r=r: f"rank {r}")
        return
    for t in range(6) if cfg.get("cube") else (0,):
        lead = (t,) if cfg.get("cube") else ()

        def body(*idx, t=t, lead=lead):
            got = env.value(data, *[o + i for o, i in zip(gorigin, lead + idx)])
            options = []
            for s in range(ny * nx):
                r = t * ny * nx + s
                _, st = start_of(cfg, geo, r, my, mx)
                loc = [i - a for i, a in zip(idx, st)]
                inside = env.And(*[env.And(a >= 0, a < e) for a, e in zip(loc, geo.rank)])
                if env.symbolic or inside:
                    options.append(
                        env.And(inside, env.same(got, before[r](*[o + i for o, i in zip(origin, loc)])))
                    )
            return env.Or(*options)

        env.check_forall([(d, 0, e) for d, e in zip(geo.dims, geo.tile)], body,
                         "gather: every point comes from a rank that holds it", lambda t=t: f"tile {t}")


def run_roundtrip(env, cfg):
    ny, nx, R, w, my, mx, other = base(env, cfg)
    geo = Geo(env, "", cfg["dims"], cfg, my, mx, ny, nx, other)
    q, before, gdims, gext, gorigin = whole(env, cfg, geo, "whole", "g")

    def program(r):
        def f(comm):
            c = communicator(env, cfg, comm)
            return c.gather(c.scatter(q if r == 0 else None))

        return f

    out = w.run({r: program(r) for r in range(R)})[0]
    check_meta(env, out, gdims, gext, UNITS, q.data.dtype, "round trip")

    def body(*idx):
        return env.same(env.value(out.data, *[o + i for o, i in zip(out.origin, idx)]),
                        before(*[o + i for o, i in zip(gorigin, idx)]))

    env.check_forall([(f"d{k}", 0, e) for k, e in enumerate(gext)], body,
                     "scattering and gathering restores the quantity", lambda: "root")
    env.cover(f"round trip cube={bool(cfg.get('cube'))}")


def run_sequence(env, cfg):
    """Transfers one after another with one communicator; what each gave is compared at the end."""
    ny, nx, R, w, my, mx, other = base(env, cfg)
    ops = []
    for k, op in enumerate(cfg["ops"]):
        c = dict(cfg, pad=False, **op)
        geo = Geo(env, "", c["dims"], c, my, mx, ny, nx, other)
        lead = ([("tile", 6)] if cfg.get("cube") else [])
        gd, ge = [d for d, _ in lead] + list(geo.dims), [e for _, e in lead] + list(geo.tile)
        if op["op"] == "scatter":
            sent = [quantity(env, f"whole{k}", gd, ge, (0,) * len(ge), tuple(ge), c)]
        else:
            sent = [quantity(env, f"s{k}_{r}", geo.dims, geo.rank, (0,) * len(geo.rank), tuple(geo.rank), c) for r in range(R)]
        ops.append((c, geo, gd, ge, sent, [env.snapshot(x.data) for x in sent]))

    def program(r):
        def f(comm):
            c = communicator(env, cfg, comm)
            return [c.scatter(sent[0] if r == 0 else None) if oc["op"] == "scatter" else c.gather(sent[r])
                    for oc, _, _, _, sent, _ in ops]

        return f

    res = w.run({r: program(r) for r in range(R)})
    for k, (c, geo, gd, ge, sent, before) in enumerate(ops):
        label = f"in a sequence of transfers: {c['op']}"
        for x, b in zip(sent, before):
            check_all(env, x.data, b, label + ": what was sent is unchanged", f"operation {k}")
        if c["op"] == "scatter":
            for r in range(R):
                fresh(env, res[r][k], sent + [res[r][j] for j in range(k) if res[r][j] is not None], label, f"rank {r}")
                check_meta(env, res[r][k], geo.dims, geo.rank, UNITS, sent[0].data.dtype, label)
                compare_rank(env, c, geo, r, my, mx, res[r][k].data, res[r][k].origin, before[0], (0,) * len(ge), label)
        else:
            fresh(env, res[0][k], sent + [res[0][j] for j in range(k)], label, "root")
            check_meta(env, res[0][k], gd, ge, UNITS, sent[0].data.dtype, label)
            check_gathered(env, c, geo, R, my, mx, res[0][k].data, res[0][k].origin, before, (0,) * len(geo.rank))
    env.cover("sequence")


def run_missing(env, cfg):
    """The root has nothing to scatter."""
    ny, nx, R, w, my, mx, other = base(env, cfg)
    geo = Geo(env, "", cfg["dims"], cfg, my, mx, ny, nx, other)
    state = cfg["what"] == "scatter_state"
    recv = quantity(env, "recv", geo.dims, geo.rank, (0,) * len(geo.rank), tuple(geo.rank), cfg)
    before = env.snapshot(recv.data)
    given = {"a": recv, "time": T1}

    def root(comm):
        c = communicator(env, cfg, comm)
        try:
            if state:
                c.scatter_state(None, given)
            else:
                c.scatter(None, recv)
        except TypeError:
            return "refused"
        return "accepted"

    env.check(w.run({r: (root if r == 0 else lambda comm: None) for r in range(R)})[0] == "refused", "scattering nothing from the root is a TypeError")
    check_all(env, recv.data, before, "a refused scatter changes nothing", "root")
    env.check(given == {"a": recv, "time": T1}, "a refused scatter changes nothing")
    env.cover("nothing to scatter")


T0 = datetime.datetime(2016, 8, 1, 0, 15)
T1 = datetime.datetime(1999, 1, 2)
VARS = {
    "air": ["z", "y", "x"],
    "u": ["y_interface", "x"],
    "v": ["x_interface", "y"],
    # names which resemble the one entry that is not a quantity, or nothing at all
    "timestep": ["z", "y", "x"],
    "surface_time": ["y", "x_interface"],
    "Time": ["x", "y"],
    "time ": ["y"],
    "": ["x", "y"],
}


def earlier_state(env, cfg, names, my, mx, ny, nx, other, r=None):
    """A state transferred before: some of the same names for other variables, another time."""
    st = {"time": T2}
    for n, dims in (cfg.get("earlier") or {}).items():
        g = Geo(env, n, dims, cfg, my, mx, ny, nx, other)
        lead = r is None and cfg.get("cube")
        ext = ([6] if lead else []) + list(g.rank if r is not None else g.tile)
        st[n] = quantity(env, f"e{n}{'' if r is None else r}", (["tile"] if lead else []) + list(dims), ext,
                         (0,) * len(ext), tuple(ext), cfg, units="other")
    if cfg["time"]:
        del st["time"]
    return st


T2 = datetime.datetime(2040, 3, 4)


def run_scatter_state(env, cfg):
    ny, nx, R, w, my, mx, other = base(env, cfg)
    names = cfg["vars"]
    geos = {n: Geo(env, n, VARS[n], cfg, my, mx, ny, nx, other) for n in names}
    state, snaps, gor = {}, {}, {}
    for n in names:
        q, snaps[n], gd, ge, gor[n] = whole(env, dict(cfg, pad=False), geos[n], "whole_" + n, n)
        state[n] = q
    if cfg["time"]:
        # time may stand anywhere in the state
        items = list(state.items())
        items.insert(cfg.get("time_at", 0), ("time", T0))
        state = dict(items)
    pre = cfg.get("pre", [])
    recv, rsnap = {}, {}
    for r in range(R):
        if cfg.get("norecv"):
            recv[r] = None
            continue
        st = {"untouched": object(), "time": T1} if cfg.get("oldtime") else {}
        for n in pre:
            origin, shape = padded(env, f"p{n}", geos[n].rank, {0, 1}) if r == 0 else rsnap[n, "g"]
            rsnap[n, "g"] = (origin, shape)
            st[n] = quantity(env, f"recv{n}{r}", geos[n].dims, geos[n].rank, origin, shape, cfg)
            rsnap[n, r] = env.snapshot(st[n].data)
        recv[r] = st
    given = {r: dict(v) if v is not None else None for r, v in recv.items()}
    early = earlier_state(env, cfg, names, my, mx, ny, nx, other) if "earlier" in cfg else None

    def program(r):
        def f(comm):
            c = communicator(env, cfg, comm)
            if early is not None:
                c.scatter_state(early if r == 0 else None)
            return c.scatter_state(state if r == 0 else None, recv[r])

        return f

    res = w.run({r: program(r) for r in range(R)})
    env.check(set(state) == set(names) | ({"time"} if cfg["time"] else set()),
              "scatter state: the sent state keeps its variables")
    for r in range(R):
        out = res[r]
        if recv[r] is not None:
            env.check(out is recv[r], "scatter state: returns the state it was given")
        want = set(names) | set(given[r] or {}) | ({"time"} if cfg["time"] else set())
        env.check(set(out) == want, "scatter state: exactly the sent variables are added",
                  lambda: f"rank {r}: {sorted(out)} not {sorted(want)}")
        if cfg["time"]:
            env.check(out["time"] == T0, "scatter state: every rank gets the time")
        elif cfg.get("oldtime"):
            env.check(out.get("time") == T1, "scatter state: a time that was not sent is left alone",
                      lambda: f"rank {r}: {out.get('time')}")
        if cfg.get("oldtime"):
            env.check(out["untouched"] is given[r]["untouched"], "scatter state: other entries are left alone")
        for n in names:
            if given[r] is not None and n in given[r]:
                env.check(out[n] is given[r][n], "scatter state: data goes into the given quantities")
                check_outside(env, geos[n].dims, out[n].data, rsnap[n, r], rsnap[n, "g"][0], geos[n].rank,
                              "scatter state: halo of the receiving quantity untouched", f"rank {r} {n}")
            else:
                fresh(env, out[n], [state[n]] + [res[k][n] for k in range(r)], "scatter state", f"rank {r}")
            check_meta(env, out[n], geos[n].dims, geos[n].rank, UNITS, state[n].data.dtype, "scatter state")
            compare_rank(env, cfg, geos[n], r, my, mx, out[n].data, out[n].origin, snaps[n], gor[n],
                         f"scatter state: every rank holds its share of each variable")
    env.cover("scatter state")


def run_gather_state(env, cfg):
    ny, nx, R, w, my, mx, other = base(env, cfg)
    names = cfg["vars"]
    geos = {n: Geo(env, n, VARS[n], cfg, my, mx, ny, nx, other) for n in names}
    states, snaps, org = {}, {}, {}
    for r in range(R):
        st = {}
        for n in names:
            if r == 0:
                org[n] = padded(env, f"s{n}", geos[n].rank, {0, 1})
            st[n] = quantity(env, f"s{n}{r}", geos[n].dims, geos[n].rank, org[n][0], org[n][1], cfg)
            snaps[n, r] = env.snapshot(st[n].data)
        if cfg["time"]:
            items = list(st.items())
            items.insert(cfg.get("time_at", 0), ("time", T0))
            st = dict(items)
        states[r] = st
    recv, given = None, {}
    if not cfg.get("norecv"):
        recv = {"untouched": object(), "time": T1} if cfg.get("oldtime") else {}
        for n in cfg.get("pre", []):
            recv[n] = whole(env, cfg, geos[n], "recv_" + n, "g" + n)[0]
        given = dict(recv)
    early = None
    if "earlier" in cfg:
        early = [earlier_state(env, cfg, names, my, mx, ny, nx, other, r) for r in range(R)]

    def program(r):
        def f(comm):
            c = communicator(env, cfg, comm)
            if early is not None:
                c.gather_state(early[r])
            return c.gather_state(
                states[r], recv_state=recv if r == 0 else (None if not cfg.get("emptyrecv") else {}))

        return f

    res = w.run({r: program(r) for r in range(R)})
    out = res[0]
    if recv is not None:
        env.check(out is recv, "gather state: returns the state it was given")
    want = set(names) | set(given) | ({"time"} if cfg["time"] else set())
    env.check(set(out) == want, "gather state: exactly the sent variables are added",
              lambda: f"{sorted(out)} not {sorted(want)}")
    if cfg["time"]:
        env.check(out["time"] == T0, "gather state: the time is the root's")
    elif cfg.get("oldtime"):
        env.check(out["time"] == T1, "gather state: a time that was not sent is left alone")
    if cfg.get("oldtime"):
        env.check(out["untouched"] is given["untouched"], "gather state: other entries are left alone")
    for n in names:
        if n in given:
            env.check(out[n] is given[n], "gather state: data goes into the given quantities")
        else:
            fresh(env, out[n], [states[r][n] for r in range(R)], "gather state", "root")
        gd = (["tile"] if cfg.get("cube") else []) + list(geos[n].dims)
        ge = ([6] if cfg.get("cube") else []) + list(geos[n].tile)
        check_meta(env, out[n], gd, ge, UNITS, states[0][n].data.dtype, "gather state")
        check_gathered(env, cfg, geos[n], R, my, mx, out[n].data, out[n].origin,
                       [snaps[n, r] for r in range(R)], org[n][0])
        for r in range(R):
            check_all(env, states[r][n].data, snaps[n, r], "gather state: the sent states are unchanged",
                      f"rank {r} {n}")
            env.check(set(states[r]) == set(names) | ({"time"} if cfg["time"] else set()),
                      "gather state: the sent states are unchanged")
    env.cover("gather state")


def run_split(env, cfg):
    """Tile communicators of a cube: scatter and gather within each tile."""
    ny, nx = cfg["layout"]
    per = ny * nx
    R = 6 * per
    cfg = dict(cfg, cube=True)
    _, _, _, w = world_of(env, cfg)
    my, mx = env.int("my", 1, 64), env.int("mx", 1, 64)
    tcfg = dict(cfg, cube=False)
    geo = Geo(env, "", cfg["dims"], tcfg, my, mx, ny, nx, {})
    qs, befores = [], []
    origin = None
    for t in range(6):
        q = quantity(env, f"tile{t}", geo.dims, geo.tile, (0,) * len(geo.tile), tuple(geo.tile), cfg)
        qs.append(q)
        befores.append(env.snapshot(q.data))

    def program(r):
        def f(comm):
            c = communicator(env, cfg, comm)
            tile = c.tile
            assert c.tile is tile
            part = tile.scatter(qs[r // per] if tile.rank == 0 else None)
            return tile.rank, part, tile.gather(part)

        return f

    res = w.run({r: program(r) for r in range(R)})
    for r in range(R):
        trank, part, whole_ = res[r]
        env.check(trank == r % per, "tile communicator: ranks count from the tile's root")
        compare_rank(env, tcfg, geo, r % per, my, mx, part.data, part.origin, befores[r // per],
                     (0,) * len(geo.tile), "tile communicator: every rank holds its share of its own tile")
        env.check((whole_ is None) == (r % per != 0), "tile communicator: only the tile's root receives")
        if whole_ is not None:
            t = r // per
            env.check_forall(
                [(d, 0, e) for d, e in zip(geo.dims, geo.tile)],
                lambda *idx, t=t, o=whole_: env.same(env.value(o.data, *idx), befores[t](*idx)),
                "tile communicator: gathering restores the tile", lambda t=t: f"tile {t}",
            )
    env.cover("tile communicators of a cube")


def run(env, cfg):
    globals()["run_" + cfg["kind"]](env, cfg)


def configs(tier, prop):
    out = []

    def add(name, kind, **k):
        k.setdefault("max_models", 12)
        out.append(dict(name=name, kind=kind, **k))

    yx, zyx = ["y", "x"], ["z", "y", "x"]
    if prop == "C09":
        S = "scatter"
        add("tile-1x1", S, layout=[1, 1], dims=yx)
        add("tile-1x2-zyx", S, layout=[1, 2], dims=zyx, prealloc="all")
        add("tile-2x1-xy", S, layout=[2, 1], dims=["x", "y"], order="F")
        add("tile-2x2-iface", S, layout=[2, 2], dims=["y_interface", "x_interface"], prealloc="some")
        add("tile-2x3-xzy", S, listed=True, layout=[2, 3], dims=["x_interface", "z", "y"], dtype="float32", prealloc="all")
        add("tile-2x2-z", S, layout=[2, 2], dims=["z"], prealloc="all")
        add("tile-1x2-repeat", S, layout=[1, 2], dims=yx, repeat=2, dtype="int32", sched="down")
        add("tile-3x1-yonly", S, layout=[3, 1], dims=["y_interface"])
        add("cube-1x1", S, cube=True, layout=[1, 1], dims=yx, prealloc="some")
        add("cube-1x2-zyx", S, listed=True, cube=True, layout=[1, 2], dims=["z", "y", "x_interface"], sched="down")
        add("cube-2x2-xy", S, cube=True, layout=[2, 2], dims=["x", "y_interface"], dtype="float32")
        add("tile-2x1-yx-into-F", S, layout=[2, 1], dims=yx, prealloc="all", rorder="F")
        add("tile-1x2-xzy-F", S, layout=[1, 2], dims=["x", "z", "y"], prealloc="some", order="F")
        add("cube-1x1-yxz-into-F", S, cube=True, layout=[1, 1], dims=["y", "x", "z"], prealloc="some", rorder="F", pad=False)
        add("split-1x2", "split", layout=[1, 2], dims=["y_interface", "x"])
        add("split-2x2", "split", layout=[2, 2], dims=["z", "y", "x"], sched="down")
        add("tile-2x2-ragged", S, layout=[2, 2], dims=["z", "y", "x_interface"], prealloc="all", ragged=True)
        add("cube-1x1-ragged", S, cube=True, layout=[1, 1], dims=["x", "y"], prealloc="some", ragged=True, order="F")
        add("tile-2x2-odd-names", S, layout=[2, 2], dims=["x_wave", "y", "y2", "x"], prealloc="some")
        add("cube-1x1-odd-names", S, cube=True, layout=[1, 1], dims=["y", "tiles", "ys_interface", "x_interface"], pad=False)
        add("tile-2x1-strided", S, layout=[2, 1], dims=zyx, prealloc="all", order="strided")
        add("cube-1x1-strided", S, cube=True, layout=[1, 1], dims=["x", "y_interface"], order="strided", pad=False)
        add("sequence-tile", "sequence", layout=[1, 2], ops=[
            dict(op="scatter", dims=["y", "x"]), dict(op="scatter", dims=["x", "y"]), dict(op="scatter", dims=["y", "x"]),
            dict(op="gather", dims=["y", "x"]), dict(op="scatter", dims=["y", "x"], dtype="float32")])
        add("sequence-cube", "sequence", cube=True, layout=[1, 1], ops=[
            dict(op="gather", dims=["y", "x"]), dict(op="scatter", dims=["y", "x"]), dict(op="scatter", dims=["y", "x_interface"]),
            dict(op="scatter", dims=["y", "x"], order="F"), dict(op="scatter", dims=["x_interface", "y"])])
        add("sequence-alone", "sequence", layout=[1, 1], ops=[
            dict(op="scatter", dims=["y", "x"]), dict(op="gather", dims=["y", "x"]), dict(op="scatter", dims=["x", "z", "y"])])
        add("missing", "missing", layout=[1, 2], dims=yx, what="scatter")
        add("missing-cube", "missing", cube=True, layout=[1, 1], dims=yx, what="scatter")
    if prop == "C10":
        S = "gather"
        add("tile-2x2-odd-names", S, layout=[2, 2], dims=["y_wave", "x", "y"])
        add("cube-1x1-odd-names", S, cube=True, layout=[1, 1], dims=["y_interface", "tiles", "xs_interface", "x"], pad=False)
        add("tile-2x1-strided", S, layout=[2, 1], dims=zyx, prealloc=True, order="strided")
        add("cube-1x1-strided", S, cube=True, layout=[1, 1], dims=["x", "y_interface"], order="strided", pad=False)
        add("sequence-tile", "sequence", layout=[1, 2], ops=[
            dict(op="gather", dims=["y", "x"]), dict(op="gather", dims=["x", "y"]), dict(op="scatter", dims=["y", "x"]),
            dict(op="gather", dims=["y", "x"]), dict(op="gather", dims=["y", "x"], dtype="float32")])
        add("sequence-cube", "sequence", cube=True, layout=[1, 1], ops=[
            dict(op="gather", dims=["y", "x"]), dict(op="gather", dims=["y", "x"]), dict(op="gather", dims=["y", "x_interface"], order="F"),
            dict(op="gather", dims=["x_interface", "y"])])
        add("sequence-alone", "sequence", layout=[1, 1], ops=[
            dict(op="gather", dims=["y", "x"]), dict(op="scatter", dims=["y", "x"]), dict(op="gather", dims=["x", "z", "y"])])
        add("tile-2x2-ragged", S, layout=[2, 2], dims=["z", "y_interface", "x"], ragged=True)
        add("cube-1x1-ragged", S, cube=True, layout=[1, 1], dims=["y", "x"], ragged=True, prealloc=True)
        add("tile-1x2-wider-type", S, layout=[1, 2], dims=["y", "x"], prealloc=True, dtype="float32", rdtype="float64")
        add("cube-1x1-real-type", S, cube=True, layout=[1, 1], dims=["y", "x"], prealloc=True, dtype="int32", rdtype="float64")
        add("tile-1x1", S, layout=[1, 1], dims=yx)
        add("tile-1x2-zyx", S, layout=[1, 2], dims=zyx, prealloc=True)
        add("tile-2x1-xy", S, layout=[2, 1], dims=["x", "y"], order="F")
        add("tile-2x2-iface", S, layout=[2, 2], dims=["y_interface", "x_interface"], prealloc=True)
        add("tile-2x3-xzy", S, listed=True, layout=[2, 3], dims=["x_interface", "z", "y"], dtype="float32")
        add("tile-1x2-repeat", S, layout=[1, 2], dims=yx, repeat=2, dtype="int32", sched="down")
        add("tile-2x1-nopad", S, layout=[2, 1], dims=yx, pad=False, prealloc=True)
        add("tile-2x1-yx-into-F", S, layout=[2, 1], dims=yx, prealloc=True, rorder="F")
        add("tile-1x2-F-into-C", S, layout=[1, 2], dims=["x", "z", "y"], prealloc=True, order="F", rorder="C")
        add("cube-1x1-F", S, cube=True, layout=[1, 1], dims=["y", "x", "z"], prealloc=True, order="F")
        add("cube-1x1", S, cube=True, layout=[1, 1], dims=yx, prealloc=True)
        add("cube-1x2-zyx", S, listed=True, cube=True, layout=[1, 2], dims=["z", "y", "x_interface"], sched="down")
        add("cube-2x2-xy", S, cube=True, layout=[2, 2], dims=["x", "y_interface"], dtype="float32")
        R = "roundtrip"
        add("round-tile-2x2", R, layout=[2, 2], dims=["z", "y_interface", "x_interface"])
        add("round-tile-2x3", R, layout=[2, 3], dims=["x", "y_interface"], order="F")
        add("round-cube-2x1", R, listed=True, cube=True, layout=[2, 1], dims=["y", "x_interface"])
        add("round-cube-1x1-xzy", R, cube=True, layout=[1, 1], dims=["x", "z", "y"], dtype="int32")
        add("round-tile-z", R, layout=[1, 2], dims=["z"])
    if prop == "C11":
        S, Gk = "scatter_state", "gather_state"
        V = ["air", "u", "v"]
        add("s-tile-plain", S, layout=[1, 2], vars=V, time=True)
        add("missing", "missing", layout=[1, 2], dims=yx, what="scatter_state")
        O = ["time ", "timestep", "Time", "", "surface_time"]
        add("s-tile-names", S, layout=[1, 2], vars=O, time=True, time_at=2, pre=["Time"], oldtime=True, listed=True)
        add("s-tile-names-notime", S, layout=[2, 1], vars=O[::-1], time=False)
        add("g-tile-names", Gk, layout=[2, 1], vars=O, time=True, time_at=2, pre=[""], oldtime=True, listed=True)
        add("g-tile-names-notime", Gk, layout=[1, 2], vars=O[::-1], time=False)
        add("s-tile-none", S, layout=[1, 2], vars=V, time=True, norecv=True, time_at=3)
        add("s-tile-pre", S, layout=[2, 1], vars=V, time=True, pre=["u"], oldtime=True, time_at=1)
        add("s-tile-into-F", S, layout=[1, 2], vars=V, time=True, pre=["u", "v"], rorder="F")
        add("s-tile-notime", S, layout=[1, 2], vars=["u"], time=False, pre=["u"], oldtime=True)
        add("s-tile-notime2", S, layout=[1, 2], vars=["v"], time=False)
        add("s-tile-empty", S, layout=[1, 2], vars=[], time=True)
        L = {"u": ["x", "y"], "pressure": ["y", "x"]}
        add("s-tile-again", S, layout=[1, 2], vars=V, time=True, earlier=L)
        add("s-tile-again-notime", S, layout=[2, 1], vars=["v", "u"], time=False, earlier=L, oldtime=True)
        add("s-cube-again", S, cube=True, layout=[1, 1], vars=["u"], time=True, norecv=True, earlier={"u": ["x", "y"], "v": ["x", "y"]})
        add("g-tile-again", Gk, layout=[1, 2], vars=V, time=True, earlier=L)
        add("g-tile-again-notime", Gk, layout=[2, 1], vars=["v", "u"], time=False, earlier=L, norecv=True)
        add("s-cube", S, cube=True, layout=[1, 1], vars=["v", "u"], time=True, sched="down", pre=["v"])
        add("g-tile-plain", Gk, layout=[1, 2], vars=V, time=True)
        add("g-tile-none", Gk, layout=[1, 2], vars=V, time=True, norecv=True, time_at=3)
        add("g-tile-pre", Gk, layout=[2, 1], vars=V, time=True, pre=["u"], oldtime=True, time_at=1)
        add("g-tile-into-F", Gk, layout=[1, 2], vars=V, time=True, pre=["u", "v"], rorder="F")
        add("g-tile-notime", Gk, layout=[1, 2], vars=["u"], time=False, pre=["u"], oldtime=True, emptyrecv=True)
        add("g-cube", Gk, cube=True, layout=[1, 1], vars=["v", "u"], time=True, sched="down", pre=["v"])
    return out
