"""Quarter turns of data (rotate.py) and filling of corners (_corners.py)."""
import importlib
import itertools

from .geometry import ax

BOUNDS = {
    "C15": "all turn counts from -9 to 9 as a symbolic integer, sizes up to 40 (square, rectangular, staggered) as symbolic "
    "integers, every order of up to four dimensions with both, one or no horizontal dimensions",
    "C16": "halo widths up to 4, compute sizes up to 64, origins and padding as symbolic integers, both directions, all four "
    "staggerings with and without a vertical dimension, symbolic ranks of layouts up to 3 x 3",
}
OUTSIDE = {
    "C15": "arrays of other libraries than numpy",
    "C16": "compute domains not larger than the filled width; the vertical levels outside the compute domain",
}
ASSUMPTIONS = ["rot90, flip and transpose of arrays as in numpy's documentation (compared with numpy on every path's example run)"]


def turned(shape, dims, n):
    """shape of data turned n times and the source index of a target index"""
    yx = {ax(d): k for k, d in enumerate(dims) if ax(d) in "xy"}
    iy, ix = yx.get("y"), yx.get("x")
    new = list(shape)
    if n % 2 and ix is not None and iy is not None:
        new[ix], new[iy] = shape[iy], shape[ix]

    def source(*p):
        # one clockwise turn takes the value at (x, y) to (y, Nx - 1 - x)
        q = list(p)
        if n == 0:
            return q
        if ix is not None and iy is not None:
            X, Y = p[ix], p[iy]
            NX, NY = shape[ix], shape[iy]
            x, y = {1: (NX - 1 - Y, X), 2: (NX - 1 - X, NY - 1 - Y), 3: (Y, NY - 1 - X)}[n]
            q[ix], q[iy] = x, y
        elif ix is not None:
            if n in (1, 2):
                q[ix] = shape[ix] - 1 - p[ix]
        elif iy is not None:
            if n in (2, 3):
                q[iy] = shape[iy] - 1 - p[iy]
        return q

    return new, source


def sizes(env, tag, dims, same=False):
    out = []
    side = env.int(tag + "side", 1, 40) if same else None
    for k, d in enumerate(dims):
        if same and d.split("_")[0] in ("x", "y"):
            out.append(side)
        else:
            out.append(env.int(f"{tag}{k}", 1, 40))
    return out


def after(dims, n):
    """names of the dimensions in the turned frame"""
    if n % 2 == 0:
        return list(dims)
    both = {d.split("_")[0] for d in dims} >= {"x", "y"}
    if both:
        return list(dims)  # labels stay, the axes change places
    swap = {"x": "y", "y": "x", "x_interface": "y_interface", "y_interface": "x_interface"}
    return [swap.get(d, d) for d in dims]


def twin(d):
    return d[:1] if d in ("x_interface", "y_interface") else d + "_interface" if d in ("x", "y") else d


def compare(env, got, shape, ref, label, detail):
    env.check(len(got.shape) == len(shape), label + ": shape")
    for a, b in zip(got.shape, shape):
        env.check(a == b, label + ": shape", detail)
    env.check_forall([(f"p{k}", 0, s) for k, s in enumerate(shape)],
                     lambda *p: env.same(env.value(got, *p), ref(*p)), label + ": values", detail)


def run_scalar(env, cfg):
    rot = importlib.import_module("fv3gfs.util.rotate")
    dims = cfg["dims"]
    shape = sizes(env, "n", dims, cfg.get("square"))
    data = env.array("a", shape, cfg.get("dtype", "float64"), cfg.get("order", "C"))
    before = env.snapshot(data)
    n = env.int("turns", -9, 9)
    # something else is turned first, its dimensions in another order
    rot.rotate_scalar_data(env.array("first", shape[::-1]), list(dims)[::-1], env.np, n)
    rot.rotate_scalar_data(env.array("second", shape), [twin(d) for d in dims], env.np, n + 1)
    out = rot.rotate_scalar_data(data, tuple(dims) if cfg.get("tuple") else dims, env.np, n)
    m = env.concretize(n % 4)
    new, source = turned(shape, dims, m)
    compare(env, out, new, lambda *p: before(*source(*p)), "scalar: each value moves as the plane turns", lambda: f"{m} turns")
    env.check(out.dtype == data.dtype, "scalar: element type kept")
    compare(env, data, shape, before, "scalar: the input is not modified", None)
    # then b more turns, in the turned frame
    k = env.int("more", 0, 7)
    d2 = after(dims, m)
    twice = rot.rotate_scalar_data(out, d2, env.np, k)
    once = rot.rotate_scalar_data(data, dims, env.np, n + k)
    compare(env, twice, list(once.shape), env.snapshot(once), "scalar: turning a then b is turning a + b",
            lambda: f"{m} then {k}")
    env.cover(f"{m} turns")


def run_vector(env, cfg):
    rot = importlib.import_module("fv3gfs.util.rotate")
    dims = cfg["dims"]
    shape = sizes(env, "n", dims, cfg.get("square"))
    sx, sy = list(shape), list(shape)
    ix = [k for k, d in enumerate(dims) if ax(d) == "x"]
    iy = [k for k, d in enumerate(dims) if ax(d) == "y"]
    if cfg.get("stagger"):
        for k in iy:
            sx[k] = sx[k] + 1
        for k in ix:
            sy[k] = sy[k] + 1
    x = env.array("x", sx, cfg.get("dtype", "float64"))
    y = env.array("y", sy, cfg.get("dtype", "float64"))
    bx, by = env.snapshot(x), env.snapshot(y)
    n = env.int("turns", -9, 9)
    rot.rotate_vector_data(env.array("fx", shape[::-1]), env.array("fy", shape[::-1]), n, list(dims)[::-1], env.np)
    out = rot.rotate_vector_data(x, y, n, dims, env.np)
    env.check(len(out) == 2, "vector: two components")
    m = env.concretize(n % 4)
    nx, fx = turned(sx, dims, m)
    ny, fy = turned(sy, dims, m)
    ox = lambda *p: bx(*fx(*p))  # noqa
    oy = lambda *p: by(*fy(*p))  # noqa
    want = {
        0: ((nx, ox, 1), (ny, oy, 1)),
        1: ((ny, oy, 1), (nx, ox, -1)),
        2: ((nx, ox, -1), (ny, oy, -1)),
        3: ((ny, oy, -1), (nx, ox, 1)),
    }[m]
    for got, (shp, ref, sign), c in zip(out, want, "xy"):
        compare(env, got, shp, lambda *p, ref=ref, sign=sign: ref(*p) * sign,
                f"vector: the {c}-component is that of the turned vector", lambda: f"{m} turns")
    compare(env, x, sx, bx, "vector: the input is not modified", None)
    compare(env, y, sy, by, "vector: the input is not modified", None)
    k = env.int("more", 0, 7)
    d2 = after(dims, m)
    twice = rot.rotate_vector_data(out[0], out[1], k, d2, env.np)
    once = rot.rotate_vector_data(x, y, n + k, dims, env.np)
    for a, b in zip(twice, once):
        compare(env, a, list(b.shape), env.snapshot(b), "vector: turning a then b is turning a + b", lambda: f"{m} then {k}")
    env.cover(f"{m} turns")


def run_corner(env, cfg):
    u = env.util
    dims = cfg["dims"]
    ny, nx = cfg["layout"]
    n = env.int("width", 1, 4)
    origin, extent, shape = [], [], []
    for k, d in enumerate(dims):
        e = env.int(f"n{k}", 1, 64)
        o, t = env.int(f"o{k}", 0, 7), env.int(f"t{k}", 0, 7)
        if k < 2:
            env.assume(env.And(o >= n, t >= n, e > n + 1))
        origin.append(o), extent.append(e), shape.append(o + e + t)
    data = env.array("a", shape, cfg.get("dtype", "float64"), cfg.get("order", "C"))
    before = env.snapshot(data)
    q = u.Quantity(data, tuple(dims), "m", origin=tuple(origin), extent=tuple(extent))
    part = u.TilePartitioner((ny, nx))
    R = ny * nx
    rank = env.int("rank", 0, R - 1)
    if cfg.get("history"):  # others are filled first
        env.assume(n <= 3)
        t = u.Quantity(env.array("t", [16] * len(dims), "float32"), tuple(twin(d) for d in dims), "m",
                       origin=(4,) * len(dims), extent=(8,) * len(dims))
        s = u.Quantity(env.array("s", [17] * len(dims)), tuple(dims), "m", origin=(3,) * len(dims), extent=(9,) * len(dims))
        for d in "xy":
            for k in range(R):
                u.fill_scalar_corners(t, d, part, k, 2)
                u.fill_scalar_corners(s, d, part, k, 3)
            u.fill_scalar_corners(s, d, u.TilePartitioner((nx, ny)), R - 1, n)
            u.fill_scalar_corners(s, d, u.TilePartitioner((1, 1)), 0, n)
    u.fill_scalar_corners(q, cfg["direction"], part, rank, n)
    r = env.concretize(rank)
    j, i = divmod(r, nx)
    on = {("y", "start"): j == 0, ("y", "end"): j == ny - 1, ("x", "start"): i == 0, ("x", "end"): i == nx - 1}
    stag = {ax(d): int(d.endswith("interface")) for d in dims[:2]}

    def out_of(k, end, p):
        """distance outside (1, 2, ...) of coordinate p beyond that end, or <= 0"""
        return origin[k] - p if end == "start" else p - (origin[k] + extent[k]) + 1

    def outside_at(k, end, a):
        return origin[k] - a if end == "start" else origin[k] + extent[k] - 1 + a

    def inside_at(k, end, a, skip):
        """the a-th point inside that end, not counting the shared edge"""
        return origin[k] + a - 1 + skip if end == "start" else origin[k] + extent[k] - a - skip

    def body(*p):
        for ex, ey in itertools.product(("start", "end"), ("start", "end")):
            if not (on["x", ex] and on["y", ey]):
                continue
            ax, ay = out_of(0, ex, p[0]), out_of(1, ey, p[1])
            inz = [env.And(p[k] >= origin[k], p[k] < origin[k] + extent[k]) for k in range(2, len(dims))]
            if env.And(ax >= 1, ax <= n, ay >= 1, ay <= n, *inz):
                if cfg["direction"] == "x":
                    src = (outside_at(0, ex, ay), inside_at(1, ey, ax, stag["y"]))
                else:
                    src = (inside_at(0, ex, ay, stag["x"]), outside_at(1, ey, ax))
                return env.same(env.value(data, *p), before(*src, *p[2:]))
        return env.same(env.value(data, *p), before(*p))

    env.check_forall([(f"p{k}", 0, s) for k, s in enumerate(shape)], body,
                     "corners hold the turned halo values and nothing else changes", lambda: f"rank {r}")
    env.cover("corner" if (j in (0, ny - 1)) and (i in (0, nx - 1)) else "no corner")


def run_refuse(env, cfg):
    u = env.util
    part = u.TilePartitioner((1, 1))
    sh = [env.int(f"n{k}", 5, 12) for k in range(3)]
    for dims in (["y", "x"], ["x", "z", "y"], ["z", "x", "y"], ["y_interface", "x"]):
        shape = sh[: len(dims)]
        data = env.array("a" + "".join(dims), shape)
        before = env.snapshot(data)
        q = u.Quantity(data, tuple(dims), "m", origin=(1,) * len(dims), extent=tuple(s - 2 for s in shape))
        for direction in ("x", "y"):
            try:
                u.fill_scalar_corners(q, direction, part, 0, 1)
            except ValueError:
                continue
            env.fail("dimensions other than x then y are refused", str(dims))
        env.check_forall([(f"p{k}", 0, s) for k, s in enumerate(shape)],
                         lambda *p: env.same(env.value(data, *p), before(*p)), "a refused quantity is unchanged")
    shape = sh[:2]
    data = env.array("b", shape)
    before = env.snapshot(data)
    q = u.Quantity(data, ("x", "y"), "m", origin=(1, 1), extent=tuple(s - 2 for s in shape))
    for direction in ("z", "X", None, "xy"):
        try:
            u.fill_scalar_corners(q, direction, part, 0, 1)
        except (TypeError, ValueError):
            continue
        env.fail("other directions are refused", str(direction))
    env.check_forall([(f"p{k}", 0, s) for k, s in enumerate(shape)],
                     lambda *p: env.same(env.value(data, *p), before(*p)), "a refused quantity is unchanged")
    env.cover("refused")


def run(env, cfg):
    globals()["run_" + cfg["kind"]](env, cfg)


def configs(tier, prop):
    out = []
    deep = tier != "quick"

    def add(name, kind, **k):
        k.setdefault("max_models", 24)
        out.append(dict(name=name, kind=kind, **k))

    if prop == "C15":
        sets = [["y", "x"], ["x", "y"], ["y_interface", "x"], ["x"], ["y"], ["z"], ["z", "x_interface"], ["y_interface", "z"],
                ["z", "y", "x"], ["x", "z", "y"], ["y", "x_interface", "z"]]
        for d in sets:
            add("s-" + "-".join(d), "scalar", dims=d)
        add("s-square", "scalar", dims=["y", "x"], square=True, tuple=True)
        add("s-4d", "scalar", dims=["tile", "x", "z", "y"], dtype="float32", order="F")
        add("s-5d", "scalar", dims=["y", "tracer", "z", "bin", "x_interface"])
        add("s-6d", "scalar", dims=["tile", "x", "tracer", "z", "y", "bin"])
        add("s-odd-names", "scalar", dims=["x_wave", "y", "x", "y2"])
        add("v-odd-names", "vector", dims=["yz", "x", "xs_interface", "y"])
        add("v-5d", "vector", dims=["tracer", "x", "z", "y", "bin"])
        for d in sets[:2] + sets[3:5] + sets[8:]:
            add("v-" + "-".join(d), "vector", dims=d)
        add("v-stagger", "vector", dims=["y", "x"], stagger=True)
        add("v-stagger-xzy", "vector", dims=["x", "z", "y"], stagger=True, dtype="float32")
        if deep:
            for d in itertools.permutations(["z", "y", "x", "w"]):
                add("s-" + "-".join(d), "scalar", dims=list(d))
                add("v-" + "-".join(d), "vector", dims=list(d), stagger=True)
    if prop == "C16":
        k = 0
        lays = [[2, 2], [1, 2], [2, 3], [3, 1], [2, 1], [3, 3], [2, 2], [1, 3]]
        for direction in "xy":
            for dx in ("x", "x_interface"):
                for dy in ("y", "y_interface"):
                    add(f"{direction}-{dx}-{dy}", "corner", direction=direction, dims=[dx, dy], layout=lays[k])
                    add(f"{direction}-{dx}-{dy}-1x1", "corner", direction=direction, dims=[dx, dy], layout=[1, 1])
                    k += 1
            add(f"{direction}-3d", "corner", direction=direction, dims=["x", "y", "z"], layout=[1, 1], order="F")
            add(f"{direction}-3d-iface", "corner", direction=direction, dims=["x_interface", "y_interface", "z_interface"],
                layout=[2, 2], dtype="float32")
            add(f"{direction}-history", "corner", direction=direction, dims=["x", "y_interface"], layout=[1, 2], history=True)
        add("refused", "refuse")
        if deep:
            for lay in ([1, 1], [2, 2], [3, 3], [4, 4], [1, 3], [4, 2]):
                for direction in "xy":
                    for dx in ("x", "x_interface"):
                        for dy in ("y", "y_interface"):
                            add(f"{direction}-{dx}-{dy}-{lay[0]}x{lay[1]}", "corner", direction=direction,
                                dims=[dx, dy, "z"], layout=lay)
    return out
