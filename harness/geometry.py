"""Independent geometric oracle: the cubed sphere as an actual cube.

Each tile is a face with outward normal c and in-face axes ex, ey.  Positions
on a face use doubled coordinates: with N cells per edge the face spans
[0, 2N] in X and Y, cell centres are odd and interfaces even.  A point beyond
one edge of a face lies on the neighbouring face, reached by folding over the
cube's edge; components of vectors turn with the fold.
"""

X, Y, Z = (1, 0, 0), (0, 1, 0), (0, 0, 1)


def neg(v):
    return tuple(-a for a in v)


def dot(a, b):
    return sum(p * q for p, q in zip(a, b))


FRAMES = [
    dict(c=X, ex=Y, ey=Z),
    dict(c=Y, ex=neg(X), ey=Z),
    dict(c=Z, ex=neg(X), ey=neg(Y)),
    dict(c=neg(X), ex=neg(Z), ey=neg(Y)),
    dict(c=neg(Y), ex=neg(Z), ey=X),
    dict(c=neg(Z), ex=Y, ey=X),
]


def selfcheck():
    for f in FRAMES:
        # right-handed seen from outside, axes orthonormal
        cx = (
            f["ex"][1] * f["ey"][2] - f["ex"][2] * f["ey"][1],
            f["ex"][2] * f["ey"][0] - f["ex"][0] * f["ey"][2],
            f["ex"][0] * f["ey"][1] - f["ex"][1] * f["ey"][0],
        )
        assert cx == f["c"], f


selfcheck()

# boundary name -> (dy, dx)
DIRS = {
    "WEST": (0, -1),
    "EAST": (0, 1),
    "NORTH": (1, 0),
    "SOUTH": (-1, 0),
    "NORTHWEST": (1, -1),
    "NORTHEAST": (1, 1),
    "SOUTHWEST": (-1, -1),
    "SOUTHEAST": (-1, 1),
}


def cross(tile, side):
    """Neighbouring tile across a side, and the affine map of coordinates.

    side: 'W','E','S','N'.  Returns (tile2, fX, fY, turn) where fX, fY take
    (X, Y, N) of a point beyond that side to the neighbour's doubled
    coordinates and turn[axis] = (coefficient of u', coefficient of v') gives
    this frame's component along `axis` at that point.
    """
    f = FRAMES[tile]
    out, perp = {
        "W": (neg(f["ex"]), "x"),
        "E": (f["ex"], "x"),
        "S": (neg(f["ey"]), "y"),
        "N": (f["ey"], "y"),
    }[side]
    tile2 = [i for i, g in enumerate(FRAMES) if g["c"] == out][0]
    g = FRAMES[tile2]

    def pos(Xc, Yc, N):
        # 3-d position with the cube spanning [-N, N]
        if perp == "x":
            d = (Xc - 2 * N) if side == "E" else -Xc
            along, t = f["ey"], Yc - N
        else:
            d = (Yc - 2 * N) if side == "N" else -Yc
            along, t = f["ex"], Xc - N
        return [out[k] * N + f["c"][k] * (N - d) + along[k] * t for k in range(3)]

    def fX(Xc, Yc, N):
        p = pos(Xc, Yc, N)
        return sum(p[k] * g["ex"][k] for k in range(3) if g["ex"][k]) + N

    def fY(Xc, Yc, N):
        p = pos(Xc, Yc, N)
        return sum(p[k] * g["ey"][k] for k in range(3) if g["ey"][k]) + N

    outward_to = neg(f["c"])  # moving outward continues along -c on the neighbour
    ex_to, ey_to = f["ex"], f["ey"]
    if perp == "x":
        ex_to = outward_to if side == "E" else neg(outward_to)
    else:
        ey_to = outward_to if side == "N" else neg(outward_to)
    turn = {
        "x": (dot(ex_to, g["ex"]), dot(ex_to, g["ey"])),
        "y": (dot(ey_to, g["ex"]), dot(ey_to, g["ey"])),
    }
    return tile2, fX, fY, turn


IDENTITY_TURN = {"x": (1, 0), "y": (0, 1)}


def side_beyond(pos_j, pos_i, L):
    """Which single side of the tile a subtile position lies beyond."""
    s = []
    if pos_i < 0:
        s.append("W")
    if pos_i >= L:
        s.append("E")
    if pos_j < 0:
        s.append("S")
    if pos_j >= L:
        s.append("N")
    return s


def neighbour(rank, bname, L):
    """Geometric neighbour of a rank across a boundary.

    None at tile corners; else (rank2, side or None) with side the tile side
    crossed.
    """
    per = L * L
    tile, sub = divmod(rank, per)
    j, i = divmod(sub, L)
    dj, di = DIRS[bname]
    pj, pi = j + dj, i + di
    s = side_beyond(pj, pi, L)
    if len(s) == 2:
        return None
    if not s:
        return tile * per + pj * L + pi, None
    t2, fX, fY, _ = cross(tile, s[0])
    x2, y2 = fX(2 * pi + 1, 2 * pj + 1, L), fY(2 * pi + 1, 2 * pj + 1, L)
    assert x2 % 2 == 1 and y2 % 2 == 1
    return t2 * per + ((y2 - 1) // 2) * L + (x2 - 1) // 2, s[0]


def rotations(rank, bname, L):
    """Clockwise quarter turns from this rank's axes to the neighbour's."""
    r = neighbour(rank, bname, L)
    if r is None:
        return None
    if r[1] is None:
        return 0
    tile = rank // (L * L)
    turn = cross(tile, r[1])[3]
    # own x axis expressed in the neighbour's frame
    return {(1, 0): 0, (0, 1): 1, (-1, 0): 2, (0, -1): 3}[turn["x"]]


def source_point(rank, bname, L, n, y, x, ykind, xkind):
    """Where the halo point (y, x) (compute-domain indices, possibly negative
    or beyond the extent) of `rank` across boundary bname comes from.

    Returns (rank2, y2, x2, turn): the neighbour, the compute-domain indices
    there, and the component turning.  ykind/xkind: 1 for interface, 0 for
    cell-centre positions along each axis of the point.
    """
    per = L * L
    tile, sub = divmod(rank, per)
    j, i = divmod(sub, L)
    r2, side = neighbour(rank, bname, L)
    j2, i2 = divmod(r2 % per, L)
    Xc = 2 * (i * n + x) + (1 - xkind)
    Yc = 2 * (j * n + y) + (1 - ykind)
    if side is None:
        turn = IDENTITY_TURN
        k2y, k2x = ykind, xkind
    else:
        _, fX, fY, turn = cross(tile, side)
        Xc, Yc = fX(Xc, Yc, n * L), fY(Xc, Yc, n * L)
        if turn["x"][0] == 0:  # axes swap, so the position kinds swap
            k2y, k2x = xkind, ykind
        else:
            k2y, k2x = ykind, xkind
    x2 = _half(Xc - (1 - k2x)) - i2 * n
    y2 = _half(Yc - (1 - k2y)) - j2 * n
    return r2, y2, x2, turn


def _half(v):
    return v // 2


AXIS = {"x": "x", "x_interface": "x", "y": "y", "y_interface": "y"}


def ax(dim):
    """the horizontal axis a dimension lies along ("x" or "y"), "-" for any other dimension whatever its name"""
    return AXIS.get(dim, "-")
