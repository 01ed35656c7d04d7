"""Runs one configuration of one check: symbolically, or natively (replay)."""
import importlib
import json
import os
import random
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.setrecursionlimit(20000)


def seen_functions():
    """Record which functions of the package ran (cheap, via sys.monitoring)."""
    codes = set()
    mon = sys.monitoring
    mon.use_tool_id(3, "verif")

    def start(code, off):
        if code.co_filename.startswith(REPO + "/fv3gfs"):
            codes.add(code)
        return mon.DISABLE

    mon.register_callback(3, mon.events.PY_START, start)
    mon.set_events(3, mon.events.PY_START)
    return codes


def func_names(codes):
    return sorted(
        {
            c.co_filename[len(REPO) + len("/fv3gfs/util/"):] + ":" + c.co_qualname
            for c in codes
            if c.co_name not in ("<module>", "<lambda>", "<genexpr>", "<listcomp>")
        }
    )


def run_sym(modname, cfg, seconds):
    import logging

    logging.disable(logging.CRITICAL)
    # z3 lives in the tool environment (same Python version)
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    import z3  # noqa

    z3.set_param("smt.random_seed", int(os.environ.get("VERIF_SEED", "1") or 1))
    from symx import core, loader, sarray
    from symx.env import SymEnv

    harness = importlib.import_module("harness." + modname)
    codes = seen_functions()
    stats = core.Stats()
    models = []
    covers = set()
    extra = {}

    def body(ctx):
        sarray.Mem._n = 0
        loader.STUBS.clear()
        stubs = getattr(harness, "stubs", None)
        if stubs is not None:
            loader.STUBS.update(stubs(ctx, cfg))
        util = loader.fresh()
        env = SymEnv(ctx, util)
        env.extra = extra
        harness.run(env, cfg)

    def on_path(ctx):
        covers.update(ctx.covers)
        if len(models) < cfg.get("max_models", 40):
            m = ctx.model_assignment()
            if m is None:
                stats.branch_unknown += 1
            else:
                models.append({k: v for k, v in m.items() if "/" not in k})

    t = time.time()
    complete, problems = core.explore(
        body, stats, t + seconds, max_paths=cfg.get("max_paths", 20000), on_path=on_path,
        ctx_opts=cfg.get("ctx_opts"),
    )
    out = []
    for kind, p in problems:
        if kind == "violation":
            out.append({"kind": kind, "label": p.label, "assignment": p.assignment, "detail": p.detail})
        elif kind == "exception":
            out.append({"kind": kind, "label": p[0], "assignment": p[1], "detail": p[2]})
        else:
            out.append({"kind": kind, "label": p[0], "assignment": None, "detail": p[1]})
    return {
        "complete": complete,
        "problems": out,
        "stats": stats.as_dict(),
        "models": models,
        "covers": sorted(covers),
        "functions": func_names(codes),
        "extra": extra,
        "wall_s": round(time.time() - t, 3),
    }


def native_util():
    import numpy as np

    sys.path.insert(0, REPO)
    import warnings

    warnings.simplefilter("ignore")
    real_empty = np.empty

    def poisoned_empty(shape, dtype=float, order="C"):
        a = real_empty(shape, dtype=dtype, order=order)
        if a.dtype.kind == "f":
            a.fill(np.nan)
        elif a.dtype.kind in "iu":
            a.fill(77)
        return a

    np.empty = poisoned_empty
    import fv3gfs.util as util

    assert util.__file__.startswith(REPO), util.__file__
    return util


def _reset(util):
    """Fresh package state between concrete runs."""
    for m in list(sys.modules):
        if m == "fv3gfs" or m.startswith("fv3gfs."):
            del sys.modules[m]
    return importlib.import_module("fv3gfs.util")


def native_once(harness, util, cfg, ctx):
    from symx.core_shared import PathAbort, Unsupported, Violated
    from symx.env import NativeEnv

    util = _reset(util)
    try:
        harness.run(NativeEnv(ctx, util), cfg)
    except PathAbort:
        return {"status": "abort"}
    except Violated as v:
        return {"status": "fail", "label": v.label, "detail": v.detail, "used": v.assignment}
    except Unsupported as u:
        return {"status": "unsupported", "label": str(u)}
    except Exception as e:
        return {
            "status": "fail",
            "label": f"{type(e).__name__}: {e}",
            "detail": traceback.format_exc()[-2500:],
            "used": dict(ctx.used),
        }
    return {"status": "ok", "checks": ctx.n_checks}


def run_native(modname, cfg, assignments, seconds):
    import logging

    logging.disable(logging.CRITICAL)
    from symx.env import NativeCtx

    harness = importlib.import_module("harness." + modname)
    util = native_util()
    res = []
    t = time.time()
    for a in assignments:
        if time.time() - t > seconds:
            res.append({"status": "skipped"})
            continue
        res.append(native_once(harness, util, cfg, NativeCtx(a)))
    return res


def run_fallback(modname, cfg, seconds):
    """Small-scope concrete runs, used only where the encoding does not apply."""
    import logging

    logging.disable(logging.CRITICAL)
    from symx.env import NativeCtx

    harness = importlib.import_module("harness." + modname)
    util = native_util()
    rng = random.Random(int(os.environ.get("VERIF_SEED", "1") or 1))
    t = time.time()
    n = 0
    fails = []
    seen = set()
    ends = {}
    while time.time() - t < seconds and len(fails) < 3 and n < 4000:
        ctx = NativeCtx(None, rng, K=cfg.get("fallback_K", 4))
        r = native_once(harness, util, cfg, ctx)
        n += 1
        ends[r["status"]] = ends.get(r["status"], 0) + 1
        k = json.dumps(ctx.used, sort_keys=True, default=str)
        if r["status"] == "fail" and k not in seen:
            r["used"] = dict(ctx.used)
            fails.append(r)
        seen.add(k)
        if not ctx.used:
            break
    return {"runs": n, "distinct": len(seen), "fails": fails, "ends": ends}


def main():
    mode, modname, cfgs, out = sys.argv[1:5]
    cfg = json.loads(cfgs)
    if mode == "sym":
        r = run_sym(modname, cfg, float(sys.argv[5]))
    elif mode == "native":
        with open(sys.argv[6]) as f:
            r = run_native(modname, cfg, json.load(f), float(sys.argv[5]))
    else:
        r = run_fallback(modname, cfg, float(sys.argv[5]))
    with open(out, "w") as f:
        json.dump(r, f, default=str)
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
