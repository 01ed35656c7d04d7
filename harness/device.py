"""Quantities of device (GPU) arrays, with a stand-in for cupy."""
from . import algebra, buffers, halo, inject, model, scatter, views

BASE = {"algebra": algebra, "buffers": buffers, "halo": halo, "model": model, "scatter": scatter, "views": views}
BOUNDS = {
    "C34": "the bounds of C04-C06, C09-C17, C21, C22 and C27, for a choice of their layouts, dimension orders, memory layouts and element types",
}
OUTSIDE = {"C34": "asynchronous execution on the device; quantities of host and of device arrays in one transfer; storing and reading files"}
ASSUMPTIONS = [
    "cupy is not installed: a stand-in written from its documentation takes its place, whose arrays behave as numpy's but "
    "never convert to host arrays implicitly and refuse to be mixed with them",
    "the message-passing library reads and writes buffers in device memory as it does the host's",
]


class Lib:
    mods = None


def stubs(ctx, cfg):
    from symx import devlib

    Lib.mods = devlib.modules(True)
    st = getattr(BASE.get(cfg.get("base")), "stubs", None)
    return dict(st(ctx, cfg) if st else {}, **Lib.mods)


def run(env, cfg):
    from symx import devlib

    if env.symbolic:
        go(env, cfg, devlib, Lib.mods["cupy"])
    else:
        mods = devlib.modules(False)
        with inject.libraries(env, mods):
            go(env, cfg, devlib, mods["cupy"])


def go(env, cfg, devlib, cupy):
    if not cfg.get("host"):
        env.device, env.np = devlib.DevArray, cupy
    BASE[cfg["base"]].run(env, cfg)
    env.cover("on a device")


def configs(tier, prop):
    out = []
    for (base, pid), names in QUICK.items():
        for c in BASE[base].configs("quick", pid):
            if names is None or c["name"] in names or tier != "quick":
                out.append(dict(c, name=f"{pid}-{c['name']}", base=base))
            if c["name"] in HOST.get(pid, []):
                out.append(dict(c, name=f"{pid}-{c['name']} on the host", base=base, host=True))
    return out


# which configurations of other properties run here (all of them in the thorough tier)
QUICK = {
    ("scatter", "C09"): ["tile-1x2-zyx", "tile-2x2-iface", "tile-1x2-repeat", "tile-2x1-yx-into-F", "cube-1x1", "cube-2x2-xy", "split-1x2"],
    ("scatter", "C10"): ["tile-1x2-zyx", "tile-2x1-nopad", "tile-2x2-iface", "cube-1x1", "cube-1x2-zyx", "tile-2x1-yx-into-F", "round-tile-2x3", "round-cube-1x1-xzy"],
    ("scatter", "C11"): ["s-tile-plain", "s-tile-pre", "g-tile-plain", "g-tile-pre", "s-cube"],
    ("halo", "C04"): ["L1-yx-eager", "L1-xzy", "L1-iface-xy", "L2-iface-zyx", "L1-zyx-F"],
    ("halo", "C05"): ["L1-yx", "L1-zyx-c", "L1-xzy-d", "L1-iface"],
    ("halo", "C06"): ["L1-yx", "L2-yx-late", "L1-zyx"],
    ("views", "C14"): ["1d", "2d", "3d", "3d-groups", "absent"],
    ("views", "C12"): ["1d-i", "1d-ss2", "2d-i-ss", "2d-ss-s-", "2d-i-i", "3d", "sel-2"],
    ("views", "C13"): ["northwest-xy", "northeast-zyx", "southwest-ints", "southeast-open", "interior-3d"],
    ("views", "C27"): ["WEST-yx", "NORTH-zyx-iface", "SOUTHEAST-xzy-mixed"],
    ("algebra", "C15"): ["s-y-x", "s-z", "s-x-z-y", "v-y-x", "v-y-x_interface-z"],
    ("algebra", "C16"): ["x-x-y", "x-x_interface-y", "x-3d-iface", "y-x-y", "y-x-y_interface", "y-3d"],
    ("model", "C21"): None,
    ("model", "C22"): ["tile 0", "tile 1", "tile 2", "unknown"],
    ("buffers", "C17"): [
        "one-full", "one-cols", "late-cols", "one-T", "one-F", "one-rev", "one-1d", "one-3d", "two-cols", "two-types", "two-allocs", "none"],
}
# and with host arrays while the device's library is there
HOST = {"C09": ["tile-2x2-iface", "tile-1x2-repeat"], "C10": ["tile-2x1-nopad"], "C05": ["L1-yx"], "C04": ["L1-xzy"], "C14": ["2d"],
        "C17": ["one-cols", "two-allocs"], "C16": ["x-x-y"], "C15": ["s-y-x"]}
