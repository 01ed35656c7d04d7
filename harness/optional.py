"""The package without its optional libraries."""
import contextlib
import os
import sys

from . import algebra, buffers, capture, halo, inject, model, multi, partition, scatter, storage, text, timing, views

BASE = {"algebra": algebra, "buffers": buffers, "capture": capture, "halo": halo, "model": model, "multi": multi, "partition": partition,
        "scatter": scatter, "storage": storage, "text": text, "timing": timing, "views": views}
BOUNDS = {
    "C37": "xarray, zarr or both absent; the bounds of the other properties for a choice of their configurations; for what needs an absent library, one and two "
    "variables of up to three dimensions with the bounds of C24",
}
OUTSIDE = {"C37": "libraries that are present in part or of another version; zarr without xarray, which no way of installing the package gives"}


@contextlib.contextmanager
def without(names):
    """sys.modules as if the libraries named were not installed"""
    gone = {m: sys.modules.pop(m) for m in list(sys.modules) if m.split(".")[0] in names}
    sys.modules.update({n: None for n in names})
    inject._forget()
    try:
        yield
    finally:
        for n in names:
            sys.modules.pop(n, None)
        sys.modules.update(gone)
        inject._forget()


def stubs(ctx, cfg):
    from symx import loader

    st = getattr(BASE.get(cfg.get("base")), "stubs", None)
    d = dict(st(ctx, cfg) if st else {})
    if not d and "base" not in cfg:
        d = storage.stubs(ctx, cfg)
    for n in cfg["absent"]:
        for m in [m for m in d if m.split(".")[0] == n]:
            del d[m]
        d[n] = loader.ABSENT
    return d


def run(env, cfg):
    if env.symbolic:
        go(env, cfg)
    else:
        import importlib

        with without(cfg["absent"]):
            env.util = importlib.import_module("fv3gfs.util")
            go(env, cfg)


def go(env, cfg):
    if "base" in cfg:
        BASE[cfg["base"]].run(env, cfg)
    else:
        globals()["run_" + cfg["kind"]](env, cfg)
    env.cover("without " + " ".join(cfg["absent"]))


def missing(env, lib, f, what):
    for _ in range(2):  # the second attempt is refused as the first was
        try:
            f()
        except ImportError as e:
            env.check(lib in str(e), "the error names the absent library", lambda: f"{what}: {e}")
            continue
        env.fail("what needs an absent library says so", what)


def run_refused(env, cfg):
    U = env.util
    lib = cfg["lib"]

    def body(folder):
        time = env.choice("time", storage.dates()[:2])
        s = storage.State(env, "a", cfg, time)
        path, old = folder + "new.nc", folder + "old.nc"
        if env.symbolic:
            files = cfg["_disk"].files
            files[old] = "kept"
        else:
            with open(old, "w") as f:
                f.write("kept")
        if lib == "xarray":
            for n, q in s.state.items():
                if n != "time":
                    missing(env, lib, lambda: q.data_array, "data_array")
            missing(env, lib, lambda: U.to_dataset(s.state), "to_dataset")
            for p in (path, old):
                missing(env, lib, lambda: U.write_state(s.state, p), "write_state")
            missing(env, lib, lambda: U.read_state(old), "read_state")
        part = U.CubedSpherePartitioner(U.TilePartitioner((1, 1)))
        if "zarr" in cfg["absent"]:
            missing(env, "zarr", lambda: U.ZarrMonitor(folder + "store.zarr", part), "ZarrMonitor")
            missing(env, "zarr", lambda: U.ZarrMonitor({}, part, mode="a"), "ZarrMonitor")
        if env.symbolic:
            left = dict(files)
        else:
            left = {}
            for n in os.listdir(folder):
                with open(folder + n) as f:
                    left[folder + n] = f.read()
        env.check(left == {old: "kept"}, "refused for want of a library, nothing is written or lost", lambda: f"{left}")
        s.check_unaltered(env)

    storage.with_folder(env, cfg, body)


def configs(tier, prop):
    out = []
    both = ["xarray", "zarr"]
    v1 = [["a", "y x", "m", "float64"]]
    v2 = [["a", "y x", "m", "float64"], ["b", "z y x_interface", "K", "float32"]]
    v0 = [["a", "", "", "float64"], ["time", "", "", "float64"]]
    for k, v in enumerate((v1, v2, v0)):
        out.append(dict(name=f"refused both {k}", kind="refused", vars=v, lib="xarray", absent=both))
    out.append(dict(name="refused zarr", kind="refused", vars=v1, lib="zarr", absent=["zarr"]))
    for (base, pid), names in QUICK.items():
        absent = ["zarr"] if base == "storage" else both
        for c in BASE[base].configs("quick", pid):
            if names is None or c["name"] in names or tier != "quick":
                out.append(dict(c, name=f"{pid}-{c['name']}", base=base, absent=absent))
    return out


QUICK = {
    ("partition", "C01"): ["tile-yx-owner", "cube-zii-overlap"],
    ("partition", "C02"): ["extents-xzy"],
    ("partition", "C03"): ["cube-L2"],
    ("scatter", "C09"): ["tile-1x2-zyx", "cube-1x1"],
    ("scatter", "C10"): ["tile-2x2-iface", "round-cube-1x1-xzy"],
    ("scatter", "C11"): ["s-tile-plain", "g-tile-pre"],
    ("halo", "C04"): ["L1-xzy", "L1-yx-eager"],
    ("halo", "C05"): ["L1-zyx-c"],
    ("halo", "C06"): ["L1-yx"],
    ("multi", "C07"): ["scalar-iface"],
    ("views", "C14"): ["2d", "3d"],
    ("views", "C12"): ["2d-i-ss", "sel-2"],
    ("views", "C13"): ["northwest-xy", "interior-3d"],
    ("views", "C27"): ["WEST-yx"],
    ("algebra", "C15"): ["s-y-x", "v-y-x_interface-z"],
    ("algebra", "C16"): ["x-x-y", "y-3d"],
    ("model", "C21"): None,
    ("model", "C22"): ["tile 0", "tile 1", "unknown"],
    ("buffers", "C17"): ["one-cols", "two-types"],
    ("storage", "C24"): ["2d", "units 1", "named after its dimension", "two writes", "no time"],
    ("storage", "C23"): ["label", "to state", "only some"],
    ("text", "C25"): ["calendar 2", "unknown calendars"],
    ("text", "C31"): ["lengths 2 2", "lengths 1 3"],
}
