"""Domain decomposition: extents, subtile slices, neighbour relations."""
from . import geometry as G
from .geometry import ax

BOUNDS = {
    "C01": "layouts 1..8 x 1..8 (symbolic) and single layouts up to 128 x 128, cells per rank 1..128, any two ranks, any cell",
    "C02": "layouts 1..256 x 1..256 (symbolic), cells per rank 1..4096, other sizes 1..64",
    "C03": "layouts 1..6, 8, 12, 16, 24 and 48 squared on the cube (1..32, 48, 64 and 96 thorough) with a symbolic rank; any tile "
    "layout up to 12 x 12 (symbolic) for the doubly periodic tile",
    "C29": "cube layouts 1 to 3 squared, symbolic tile layouts up to 4x4; histories of two requests, on one partitioner or on two of different layouts, "
    "with a change of a returned boundary between them, every rank",
}
BOUNDS["C35"] = "single layouts up to 24 x 24 (all up to 12 x 12, 48 and 64 squared thorough), any rank; turns and transposes on square layouts"
BOUNDS["C36"] = "up to 24 ranks per tile (100 thorough), any tile and place, and eleven places up to 123456 for any number of ranks up to six million"
OUTSIDE = {
    "*": "tile sizes that do not divide evenly by the layout; the refusal of non-square cube "
    "layouts is checked, their connectivity is not defined",
}

INTERFACE = ("x_interface", "y_interface", "z_interface")


def layout(cfg, ny, nx):
    """A layout as a tuple, or as the list a namelist holds."""
    return [ny, nx] if cfg.get("listed") else (ny, nx)


def meta(util, dims, extent):
    return util.QuantityMetadata(
        origin=tuple(0 for _ in dims), extent=tuple(extent), dims=tuple(dims), units="m",
        data_type=object, dtype=float,
    )


def sizes(env, cfg):
    """Cells per rank and full-tile extents for the dimensions."""
    mmax = cfg.get("mmax", 128)
    if "fixed" in cfg:  # a given layout: larger ones are within reach
        return sizes_of(env, cfg, *cfg["fixed"])
    ny = env.int("ny", 1, cfg.get("lmax", 8))
    nx = env.int("nx", 1, cfg.get("lmax", 8)) if not cfg.get("square") else ny
    return sizes_of(env, cfg, ny, nx)


def sizes_of(env, cfg, ny, nx):
    mmax = cfg.get("mmax", 128)
    my, mx = env.int("my", 1, mmax), env.int("mx", 1, mmax)
    tile, rank, other = [], [], {}
    for d in cfg["dims"]:
        if d in other:
            t = r = other[d]
        elif ax(d) == "y":
            t, r = ny * my, my
        elif ax(d) == "x":
            t, r = nx * mx, mx
        else:
            t = r = other[d] = env.int("n_" + d, 1, 64)
        if d in ("x_interface", "y_interface"):
            t, r = t + 1, r + 1
        tile.append(t)
        rank.append(r)
    return ny, nx, my, mx, tuple(tile), tuple(rank)


def twin(d):
    return d[:1] if d in ("x_interface", "y_interface", "z_interface") else d + "_interface" if d in ("x", "y", "z") else d


def ask(f, *a, **k):
    """A request whose answer, or refusal, does not matter."""
    try:
        f(*a, **k)
    except (ValueError, NotImplementedError):
        pass


def run_extents(env, cfg):
    ny, nx, my, mx, tile, rank = sizes(env, cfg)
    u = env.util
    tp = u.TilePartitioner(layout(cfg, ny, nx))
    dims = cfg["dims"]
    env.check(tp.total_ranks == ny * nx, "one rank per subtile of the tile")
    for p in (tp, u.TilePartitioner(layout(cfg, nx, ny))):  # other requests first, also of a partitioner of another layout
        for f in (p.subtile_extent, p.global_extent):
            ask(f, meta(u, dims[::-1], tile[::-1]))
            ask(f, meta(u, dims[::-1], tile))
            ask(f, meta(u, [twin(d) for d in dims], tile))
            if p is not tp:
                ask(f, meta(u, dims, tile))
    for f in (tp.subtile_extent, tp.global_extent):
        ask(f, meta(u, dims, rank))
    got = tp.subtile_extent(meta(u, dims, tile))
    env.check(len(got) == len(rank), "a rank extent has one entry per dimension")
    for g, w in zip(got, rank):
        env.check(g == w, "the extent of a rank is the tile's share", lambda: f"{got} not {rank}")
    back = tp.global_extent(meta(u, dims, got))
    env.check(len(back) == len(tile), "a tile extent has one entry per dimension")
    for g, w in zip(back, tile):
        env.check(g == w, "tile extent restored from the rank's", lambda: f"{back} not {tile}")
    cp = u.CubedSpherePartitioner(tp)
    env.check(cp.total_ranks == 6 * ny * nx, "six tiles of ranks on the cube")
    cdims = ("tile",) + tuple(dims)
    got = cp.subtile_extent(meta(u, cdims, (6,) + tile))
    for g, w in zip(got, rank):
        env.check(g == w, "the extent of a rank is the cube's share", lambda: f"{got} not {rank}")
    env.check(len(got) == len(rank), "a cube rank extent drops the tile dimension")
    back = cp.global_extent(meta(u, dims, got))
    env.check(len(back) == len(tile) + 1, "a cube extent adds the tile dimension")
    for g, w in zip(back, (6,) + tile):
        env.check(g == w, "cube extent restored from the rank's", lambda: f"{back} not {tile}")
    env.cover("extents " + " ".join(dims))


def contains(env, slices, cell):
    cs = []
    for s, c in zip(slices, cell):
        if isinstance(s, slice):
            cs += [c >= s.start, c < s.stop]
        else:
            cs.append(s == c)
    return env.And(*cs)


def run_slices(env, cfg):
    u = env.util
    ny, nx, my, mx, tile, rank_extent = sizes(env, cfg)
    cube = cfg.get("cube")
    tp = u.TilePartitioner(layout(cfg, ny, nx))
    part = u.CubedSpherePartitioner(tp) if cube else tp
    dims = (("tile",) if cube else ()) + tuple(cfg["dims"])
    extent = ((6,) if cube else ()) + tile

    def pick(tag):
        t = env.int("t" + tag, 0, 5) if cube else 0
        j, i = env.int("j" + tag, 0, ny - 1), env.int("i" + tag, 0, nx - 1)
        return t, j, i, t * ny * nx + j * nx + i

    t1, j1, i1, r1 = pick("1")
    t2, j2, i2, r2 = pick("2")
    overlap = cfg["overlap"]
    # other requests first, also of a partitioner of another layout
    other = u.TilePartitioner(layout(cfg, nx, ny))
    for p in (part, u.CubedSpherePartitioner(other) if cube else other):
        ask(p.subtile_slice, r1, global_dims=dims, global_extent=extent, overlap=not overlap)
        ask(p.subtile_slice, r1, global_dims=dims[:1] + dims[:0:-1], global_extent=extent, overlap=overlap)
        ask(p.subtile_slice, r1, global_dims=tuple(twin(d) for d in dims), global_extent=extent, overlap=overlap)
        if p is not part:
            ask(p.subtile_slice, r1, global_dims=dims, global_extent=extent, overlap=overlap)
    s1 = part.subtile_slice(r1, global_dims=dims, global_extent=extent, overlap=overlap)
    s2 = part.subtile_slice(r2, global_dims=dims, global_extent=extent, overlap=overlap)
    env.check(len(s1) == len(dims), "one slice per dimension")
    cell = []
    for k, (d, e) in enumerate(zip(dims, extent)):
        cell.append(env.int(f"c{k}", 0, e - 1))
    for s, e in zip(s1, extent):
        if isinstance(s, slice):
            env.check(
                env.And(s.start >= 0, s.stop <= e, s.step is None or s.step == 1),
                "slices stay inside the domain", lambda: f"{s1}",
            )
    if overlap:
        off = 1 if cube else 0
        for s, w in zip(s1[off:], rank_extent):
            env.check(s.stop - s.start == w, "overlapping slices have the rank's extent",
                      lambda: f"{s1} {rank_extent}")
    in1, in2 = contains(env, s1, cell), contains(env, s2, cell)
    different = r1 != r2
    if overlap:
        # shared only at interface points that lie between the two subtiles
        ok = [t1 == t2] if cube else []
        for k, d in enumerate(dims):
            c = cell[k]
            if d == "tile":
                continue
            if d in ("y", "x"):
                ok.append(j1 == j2 if d == "y" else i1 == i2)
            elif d in ("y_interface", "x_interface"):
                a, b, m = (j1, j2, my) if ax(d) == "y" else (i1, i2, mx)
                ok.append(
                    env.Or(
                        a == b,
                        env.And(b == a + 1, c == b * m),
                        env.And(a == b + 1, c == a * m),
                    )
                )
        horizontal = {ax(d) for d in dims if ax(d) in "xy"}
        if horizontal >= {"x", "y"}:
            env.check(
                env.Implies(env.And(different, in1, in2), env.And(*ok)),
                "overlapping slices share only interface points", lambda: f"{s1} {s2} {cell}",
            )
    else:
        if {ax(d) for d in dims if ax(d) in "xy"} >= {"x", "y"}:
            env.check(
                env.Implies(different, env.Not(env.And(in1, in2))),
                "no cell belongs to two ranks", lambda: f"{s1} {s2} {cell}",
            )
    # every cell belongs to the rank its position says (the greater one on
    # shared interfaces)
    want = {}
    if cube:
        want["t"] = cell[0]
    cj = ci = None
    for k, d in enumerate(dims):
        if ax(d) in "xy":
            a, m, n = (j1, my, ny) if ax(d) == "y" else (i1, mx, nx)
            c = cell[k]
            top = (a + 1) * m if d in ("y", "x") else env.ite(a == n - 1, n * m + 1, (a + 1) * m)
            cond = env.And(c >= a * m, c < top)
            if ax(d) == "y":
                cj = cond if cj is None else env.And(cj, cond)
            else:
                ci = cond if ci is None else env.And(ci, cond)
    owner = [x for x in (cj, ci) if x is not None]
    if cube:
        owner.append(cell[0] == t1)
    if overlap:
        env.check(env.Implies(env.And(*owner), in1), "every cell belongs to the rank at its position",
                  lambda: f"{s1} {cell}")
    else:
        env.check(env.Iff(env.And(*owner), in1), "a cell belongs exactly to the rank at its position",
                  lambda: f"{s1} {cell}")
    env.cover(f"slices cube={bool(cube)} overlap={overlap}")


# -- neighbour relations

ORDER = ["WEST", "EAST", "NORTH", "SOUTH", "NORTHWEST", "NORTHEAST", "SOUTHWEST", "SOUTHEAST"]
NEEDED = ("WEST", "EAST", "NORTH", "SOUTH")


def oracle(env, t, j, i, b, L):
    """Geometric neighbour: None, or (rank2, quarter turns), t concrete."""
    dj, di = G.DIRS[b]
    pj, pi = j + dj, i + di
    sides = []
    if pi < 0:
        sides.append("W")
    if pi >= L:
        sides.append("E")
    if pj < 0:
        sides.append("S")
    if pj >= L:
        sides.append("N")
    if len(sides) == 2:
        return None
    if not sides:
        return t * L * L + pj * L + pi, 0
    t2, fX, fY, turn = G.cross(t, sides[0])
    X, Y = 2 * pi + 1, 2 * pj + 1
    x2, y2 = fX(X, Y, L), fY(X, Y, L)
    turns = {(1, 0): 0, (0, 1): 1, (-1, 0): 2, (0, -1): 3}[turn["x"]]
    return t2 * L * L + ((y2 - 1) // 2) * L + (x2 - 1) // 2, turns


def bcheck(env, bd, exp, r, b, label):
    env.check((bd is None) == (exp is None), f"{label}: a boundary exists exactly where the cube has one",
              lambda: f"{b} of rank {r}: {bd}, expected {exp}")
    if exp is None:
        return
    env.check(bd.from_rank == r, f"{label}: a boundary starts at its rank", lambda: f"{b} {bd}")
    env.check(bd.to_rank == exp[0], f"{label}: a boundary leads to the adjacent rank",
              lambda: f"{b} of rank {r} leads to {bd.to_rank}, expected {exp[0]}")
    env.check(bd.n_clockwise_rotations % 4 == exp[1] % 4, f"{label}: a boundary turns as the cube does",
              lambda: f"{b} of rank {r} turns {bd.n_clockwise_rotations}, expected {exp[1]}")
    env.check(bd.boundary_type == G_TYPES[b], f"{label}: a boundary has the requested type",
              lambda: f"{b} {bd}")


G_TYPES = {}


def types(util):
    import importlib

    c = importlib.import_module("fv3gfs.util.constants")
    G_TYPES.update({b: getattr(c, b) for b in ORDER})
    return G_TYPES


def symrank(env, L):
    t = env.choice("t", list(range(6)))
    j, i = env.int("j", 0, L - 1), env.int("i", 0, L - 1)
    return t, j, i, t * L * L + j * L + i


def run_cube(env, cfg):
    L = cfg["L"]
    u = env.util
    T = types(u)
    part = u.CubedSpherePartitioner(u.TilePartitioner(layout(cfg, L, L)))
    t, j, i, r = symrank(env, L)
    total = 6 * L * L
    env.check(part.tile_index(r) == t, "tile of a rank")
    env.check(u.get_tile_index(r, total) == t, "tile of a rank")
    env.check(u.get_tile_number(r, total) == t + 1, "tile number of a rank")
    env.check(part.tile_root_rank(r) == t * L * L, "root rank of a tile")
    sj, si = part.tile.subtile_index(r)
    env.check(env.And(sj == j, si == i), "position of a rank on its tile")
    tile = part.tile
    env.check(
        env.And(
            env.Iff(tile.on_tile_left(r), i == 0), env.Iff(tile.on_tile_right(r), i == L - 1),
            env.Iff(tile.on_tile_bottom(r), j == 0), env.Iff(tile.on_tile_top(r), j == L - 1),
        ),
        "tile edges are recognised",
    )
    for b in ORDER:
        exp = oracle(env, t, j, i, b, L)
        bd = part.boundary(T[b], r)
        bcheck(env, bd, exp, r, b, "cube")
        if bd is not None:
            env.check(env.And(bd.to_rank >= 0, bd.to_rank < total), "cube: neighbours are ranks of the cube")
        if bd is not None and cfg.get("back") and b in NEEDED:
            # the neighbour has a boundary back, with the opposite turn
            hits = []
            for b2 in NEEDED:
                back = part.boundary(T[b2], bd.to_rank)
                hits.append(
                    env.And(
                        back.to_rank == r,
                        (back.n_clockwise_rotations + bd.n_clockwise_rotations) % 4 == 0,
                    )
                )
            env.check(env.Or(*hits), "cube: neighbours agree about their shared edge",
                      lambda: f"{b} of rank {r}: {bd}")
    env.cover(f"cube L={L}")


def run_tile(env, cfg):
    """Doubly periodic tile: neighbours wrap around, no turns."""
    u = env.util
    T = types(u)
    ny, nx = env.int("ny", 1, cfg.get("lmax", 12)), env.int("nx", 1, cfg.get("lmax", 12))
    j, i = env.int("j", 0, ny - 1), env.int("i", 0, nx - 1)
    r = j * nx + i
    tp = u.TilePartitioner(layout(cfg, ny, nx))
    for b in ORDER:
        dj, di = G.DIRS[b]
        pj, pi = j + dj, i + di
        pj = env.ite(pj < 0, ny - 1, env.ite(pj >= ny, 0, pj)) if dj else pj
        pi = env.ite(pi < 0, nx - 1, env.ite(pi >= nx, 0, pi)) if di else pi
        bcheck(env, tp.boundary(T[b], r), (pj * nx + pi, 0), r, b, "tile")
    env.cover("tile")


def run_nonsquare(env, cfg):
    u = env.util
    T = types(u)
    ny, nx = env.int("ny", 1, 6), env.int("nx", 1, 6)
    env.assume(ny != nx)
    part = u.CubedSpherePartitioner(u.TilePartitioner((ny, nx)))
    t, j, i = env.int("t", 0, 5), env.int("j", 0, ny - 1), env.int("i", 0, nx - 1)
    r = t * ny * nx + j * nx + i
    for b in NEEDED:
        try:
            part.boundary(T[b], r)
        except NotImplementedError:
            continue
        env.fail("cube: layouts that are not square are refused", b)
    env.cover("non-square refused")


def run_history(env, cfg):
    """The answer to a request does not depend on what was asked, or done with
    an answer, before."""
    u = env.util
    T = types(u)

    if cfg["part"] == "cube":
        L = cfg["L"]
        per = 6 * L * L
        mk = lambda: u.CubedSpherePartitioner(u.TilePartitioner((L, L)))  # noqa
        pick = lambda tag: env.int("r" + tag, 0, per - 1)  # noqa
    else:
        ny, nx = env.int("ny", 1, 4), env.int("nx", 1, 4)
        mk = lambda: u.TilePartitioner((ny, nx))  # noqa

        def pick(tag):
            j, i = env.int("j" + tag, 0, ny - 1), env.int("i" + tag, 0, nx - 1)
            return j * nx + i

    fresh, used = mk(), mk()
    b1 = cfg["b1"]
    r1 = pick("1")
    first = used.boundary(T[b1], r1)
    if first is not None:
        first.to_rank = first.to_rank + 1000
        first.from_rank = -5
        first.n_clockwise_rotations = first.n_clockwise_rotations + 1
    r2 = r1 if cfg.get("same") else pick("2")
    for b2 in cfg["b2"]:
        got = used.boundary(T[b2], r2)
        exp = fresh.boundary(T[b2], r2)
        env.check((got is None) == (exp is None), "a boundary does not depend on earlier requests")
        if exp is not None:
            env.check(
                env.And(
                    got.to_rank == exp.to_rank, got.from_rank == exp.from_rank,
                    got.n_clockwise_rotations == exp.n_clockwise_rotations,
                ),
                "a boundary does not depend on earlier requests",
                lambda: f"after {b1} of {r1}: {b2} of {r2} is {got}, fresh {exp}",
            )
    env.cover(f"history {cfg['part']} {b1}")


def tile_oracle(env, b, ny, nx, j, i):
    dj, di = G.DIRS[b]
    pj, pi = j + dj, i + di
    pj = env.ite(pj < 0, ny - 1, env.ite(pj >= ny, 0, pj)) if dj else pj
    pi = env.ite(pi < 0, nx - 1, env.ite(pi >= nx, 0, pi)) if di else pi
    return pj * nx + pi, 0


def run_others(env, cfg):
    """Partitioners of other layouts, asked about the same rank, do not influence each other."""
    u = env.util
    T = types(u)
    b = cfg["b"]
    if cfg["part"] == "tile":
        spec = []
        for k in range(2):
            ny, nx = env.int(f"ny{k}", 1, 4), env.int(f"nx{k}", 1, 4)
            spec.append((ny, nx, u.TilePartitioner((ny, nx))))
        env.assume(env.Or(spec[0][0] != spec[1][0], spec[0][1] != spec[1][1]))
        j, i = env.int("j", 0, spec[0][0] - 1), env.int("i", 0, spec[0][1] - 1)
        r = j * spec[0][1] + i
        env.assume(r < spec[1][0] * spec[1][1])
        j1 = env.int("j1", 0, spec[1][0] - 1)
        i1 = r - j1 * spec[1][1]
        env.assume(env.And(i1 >= 0, i1 < spec[1][1]))
        for k, (pj, pi) in ((0, (j, i)), (1, (j1, i1)), (0, (j, i))):
            ny, nx, part = spec[k]
            bcheck(env, part.boundary(T[b], r), tile_oracle(env, b, ny, nx, pj, pi), r, b, "tile, after another layout")
    elif cfg["part"] == "within":  # the cube builds on its tile's answers
        L = cfg["L"]
        part = u.CubedSpherePartitioner(u.TilePartitioner(layout(cfg, L, L)))
        t, j, i, r = symrank(env, L)
        for _ in range(2):
            bcheck(env, part.boundary(T[b], r), oracle(env, t, j, i, b, L), r, b, "cube, asked again")
            r0 = j * L + i
            bcheck(env, part.tile.boundary(T[b], r0), tile_oracle(env, b, L, L, j, i), r0, b, "tile of a cube")
    else:
        L0, L1 = cfg["L"]
        parts = [u.CubedSpherePartitioner(u.TilePartitioner((L, L))) for L in (L0, L1)]
        t0, j0, i0, r = symrank(env, L0)
        t1, j1, i1 = env.int("t_", 0, 5), env.int("j_", 0, L1 - 1), env.int("i_", 0, L1 - 1)
        env.assume(r == t1 * L1 * L1 + j1 * L1 + i1)
        t1 = env.concretize(t1)
        bcheck(env, parts[0].boundary(T[b], r), oracle(env, t0, j0, i0, b, L0), r, b, "cube")
        bcheck(env, parts[1].boundary(T[b], r), oracle(env, t1, j1, i1, b, L1), r, b, "cube, after another layout")
        bcheck(env, parts[0].boundary(T[b], r), oracle(env, t0, j0, i0, b, L0), r, b, "cube, after another layout")
    env.cover(f"others {cfg['part']} {b}")


def run_moves(env, cfg):
    """Turning and flipping a tile moves its ranks as it moves its cells."""
    import importlib

    u = env.util
    m = importlib.import_module("fv3gfs.util.partitioner")
    ny, nx = cfg["layout"]
    lay = layout(cfg, ny, nx)
    tp = u.TilePartitioner(lay)
    other = u.TilePartitioner(cfg["other"])
    r = env.int("r", 0, ny * nx - 1)
    j, i = tp.subtile_index(r)
    env.check(env.And(j * nx + i == r, i >= 0, i < nx), "ranks are numbered row by row")
    ask(other.fliplr_rank, 0)
    if ny == nx:
        ask(other.rotate_rank, 0, 1)
    ask(m.flipud_subtile_rank, 0, tuple(other.layout))

    def same(got, want, label):
        env.check(got == want[0] * nx + want[1], label, lambda: f"rank {r} of {lay}: {got}, expected {want}")

    moves = {
        "fliplr": (lambda q: m.fliplr_subtile_rank(q, lay), (j, nx - 1 - i)),
        "fliplr of the partitioner": (lambda q: tp.fliplr_rank(q), (j, nx - 1 - i)),
        "flipud": (lambda q: m.flipud_subtile_rank(q, lay), (ny - 1 - j, i)),
    }
    if ny == nx:
        moves["transpose"] = (lambda q: m.transpose_subtile_rank(q, lay), (i, j))
    for name, (f, want) in moves.items():
        got = f(r)
        same(got, want, f"{name} moves a rank as it moves the tile")
        env.check(f(got) == r, f"{name} twice is no move")
    if ny == nx:
        want = (j, i)
        last = r
        for n in range(4):
            for f in (lambda q, k: m.rotate_subtile_rank(q, lay, k), lambda q, k: tp.rotate_rank(q, k)):
                try:
                    got = f(r, n)
                except NotImplementedError:
                    env.check(n > 1, "no turn and a quarter turn are supported")
                    continue
                same(got, want, "turning moves a rank as it turns the tile")
            want = (nx - 1 - want[1], want[0])
            last = tp.rotate_rank(last, 1)
            same(last, want, "quarter turns add up")
        env.check(last == r, "four quarter turns are no move")
        try:
            got = tp.rotate_rank(tp.rotate_rank(r, 1), 3)
        except NotImplementedError:
            pass
        else:
            env.check(got == r, "three turns undo one")
    env.cover(f"moves {ny}x{nx}")


def run_suffix(env, cfg):
    """Restart file names by rank."""
    import importlib

    m = importlib.import_module("fv3gfs.util._legacy_restart")
    if cfg.get("refused"):
        total = env.int("total", 1, cfg["nmax"])
        env.assume(total % 6 != 0)
        rank = env.int("rank", 0, cfg["nmax"])
        env.assume(rank < total)
        for f in (m.get_rank_suffix, env.util.get_tile_index, env.util.get_tile_number):
            try:
                f(rank, total)
            except ValueError:
                continue
            env.fail("numbers of ranks that do not fill six tiles are refused")
        env.cover("refused")
        return
    if "places" in cfg:  # given places on the tile, any number of ranks
        n = env.int("n", 1, cfg["nmax"])
        place = env.choice("place", cfg["places"])
        env.assume(place < n)
    else:
        n = env.int("n", 1, cfg["nmax"])
        place = env.int("place", 0, cfg["nmax"] - 1)
        env.assume(place < n)
    t = env.choice("t", list(range(6)))
    if env.symbolic:
        env.core.CTX.format_values = True
    try:
        for tile, p, k in ((5 - t, 0, n), (0, 0, 1), (t, 0, 2), (t, place, n)):
            got = m.get_rank_suffix(tile * k + p, 6 * k)
    finally:
        if env.symbolic:
            env.core.CTX.format_values = False
    if env.concretize(n > 1) if env.symbolic else n > 1:
        place = env.concretize(place)
        want = f".tile{t + 1}.nc.{place:04d}"
    else:
        want = f".tile{t + 1}.nc"
    env.check(got == want, "a rank's files are named by its tile and its place on it", lambda: f"{got!r}, expected {want!r}")
    env.cover("suffix")


def run(env, cfg):
    globals()["run_" + cfg["kind"]](env, cfg)


def configs(tier, prop):
    out = []
    deep = tier == "thorough"

    def add(name, kind, **k):
        out.append(dict(name=name, kind=kind, **k))

    D = {
        "yx": ["y", "x"],
        "xy": ["x", "y"],
        "iyx": ["y_interface", "x"],
        "yix": ["y", "x_interface"],
        "zii": ["z", "y_interface", "x_interface"],
        "xzy": ["x_interface", "z_interface", "y"],
        "4d": ["tracer", "z", "y", "x"],
        "y": ["y_interface"],
        "z": ["z"],
        "odd": ["x_wave", "y", "yrs_interface", "x_interface"],
    }
    if prop == "C01":
        for n, d in D.items():
            if n in ("y", "z"):
                continue
            for ov in (False, True):
                add(f"tile-{n}-{'overlap' if ov else 'owner'}", "slices", dims=d, overlap=ov, listed=n in ("xy", "zii"))
        for k, lay in enumerate([(16, 16), (24, 48), (9, 33), (64, 1), (1, 96), (10, 10), (128, 128)] + ([(a, b) for a in range(9, 40, 3) for b in (11, 17, 31, 100)] if deep else [])):
            n = list(D)[k % 7]
            add(f"{lay} {n}", "slices", dims=D[n], overlap=k % 2 == 0, cube=k % 3 == 1, fixed=lay, max_models=6)
        for n in ("yx", "zii", "yix"):
            for ov in (False, True):
                add(f"cube-{n}-{'overlap' if ov else 'owner'}", "slices", dims=d if n == "x" else D[n],
                    overlap=ov, cube=True, listed=n == "yix")
    if prop == "C02":
        for n, d in D.items():
            add("extents-" + n, "extents", dims=d, lmax=256, mmax=4096, fallback_K=60, listed=n in ("iyx", "xzy", "y"))
    if prop == "C03":
        for L in range(1, 11 if deep else 7):
            add(f"cube-L{L}", "cube", L=L, back=L <= 4, max_models=12, listed=L in (1, 2, 5))
        for L in (8, 12, 16, 24, 48) if not deep else [*range(11, 33), 48, 64, 96]:
            add(f"cube-L{L}", "cube", L=L, listed=L == 12, max_models=12)
        add("tile-periodic", "tile")
        add("non-square", "nonsquare")
    if prop == "C29":
        for b in ORDER:
            add(f"cube-L2-{b}", "history", part="cube", L=2, b1=b, b2=[b], max_models=12)
            add(f"cube-L1-{b}", "history", part="cube", L=1, b1=b, b2=ORDER, same=True, max_models=12)
            add(f"tile-{b}", "history", part="tile", b1=b, b2=ORDER, same=True, max_models=12)
            add(f"others-tile-{b}", "others", part="tile", b=b, max_models=12)
            add(f"others-within-{b}", "others", part="within", b=b, L=2, max_models=12)
            add(f"others-cube-{b}", "others", part="cube", b=b, L=[1, 2], max_models=12)
        add("cube-L3-N-NE", "history", part="cube", L=3, b1="NORTH", b2=["NORTHEAST"], same=True, max_models=12)
    if prop == "C35":
        lays = [(1, 1), (2, 2), (3, 3), (4, 4), (8, 8), (1, 4), (5, 1), (2, 3), (4, 3), (12, 12), (24, 24), (16, 6)]
        lays += [(a, b) for a in range(1, 13) for b in range(1, 13)] + [(48, 48), (64, 64)] if deep else []
        for k, (a, b) in enumerate(dict.fromkeys(lays)):
            add(f"moves {a}x{b}", "moves", layout=[a, b], other=[b, a] if a != b else [a + 1, a + 1], listed=k % 3 == 1, max_models=6)
    if prop == "C36":
        add("any place", "suffix", nmax=100 if deep else 24, max_models=12)
        add("large", "suffix", nmax=10 ** 6, places=[0, 1, 9, 10, 99, 100, 999, 1000, 9999, 10000, 123456], max_models=12)
        add("refused", "suffix", refused=True, nmax=10 ** 6)
    return out
