"""check.py PROPERTY [--tier quick|thorough]

Runs every configuration of a property's check: symbolic execution of the
code in /repo with z3 deciding each assertion, native replay of every
counterexample, native validation of each path's model, and the evidence.
"""
import argparse
import concurrent.futures
import hashlib
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
PY = "/opt/venv/bin/python"
KNOWN = os.path.join(HERE, "known_findings.txt")
WORKERS = 8


def worker(mode, mod, cfg, seconds, extra=None, tmp=None):
    fd, out = tempfile.mkstemp(dir=tmp)
    os.close(fd)
    args = [PY, "-B", os.path.join(HERE, "worker.py"), mode, mod, json.dumps(cfg), out, str(seconds)]
    if extra is not None:
        fd, inp = tempfile.mkstemp(dir=tmp)
        with os.fdopen(fd, "w") as f:
            json.dump(extra, f)
        args.append(inp)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1",
               OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0")
    try:
        p = subprocess.run(
            args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=seconds * 1.3 + 90, env=env, cwd=tmp
        )
        log = p.stdout.decode(errors="replace")[-3000:]
    except subprocess.TimeoutExpired as e:
        return None, "timeout " + (e.stdout or b"").decode(errors="replace")[-800:]
    try:
        with open(out) as f:
            return json.load(f), log
    except Exception:
        return None, log


def run_config(mod, cfg, budget, fb_budget, tmp):
    """-> dict with everything learned about one configuration"""
    r = {"cfg": cfg, "violations": [], "notes": [], "fallback": None, "sym": None,
         "validated": 0, "validation_runs": 0}
    sym, log = (None, "native-only configuration")
    if not cfg.get("native_only"):
        sym, log = worker("sym", mod, cfg, cfg.get("seconds", budget), tmp=tmp)
    need_fallback = False
    if sym is None:
        r["notes"].append("symbolic run gave no result: " + log[-600:])
        need_fallback = True
    else:
        r["sym"] = sym
        cands = [p for p in sym["problems"] if p["assignment"] is not None]
        other = [p for p in sym["problems"] if p["assignment"] is None]
        for p in other:
            r["notes"].append(f"{p['kind']}: {p['label']}")
            r["notes"].append(p["detail"][-900:])
            need_fallback = True
        if not sym["complete"]:
            need_fallback = True
            r["notes"].append("exploration stopped before all paths were done")
        todo = [p["assignment"] for p in cands] + sym["models"]
        if todo:
            nat, nlog = worker("native", mod, cfg, 120, extra=todo, tmp=tmp)
            if nat is None:
                r["notes"].append("native replay gave no result: " + nlog[-600:])
                need_fallback = True
            else:
                for i, (a, n) in enumerate(zip(todo, nat)):
                    is_cand = i < len(cands)
                    if n["status"] == "fail":
                        src = cands[i] if is_cand else None
                        r["violations"].append(
                            {
                                "assignment": a,
                                "label": n["label"],
                                "detail": n["detail"],
                                "solver": src and {"kind": src["kind"], "label": src["label"],
                                                   "detail": src["detail"][-1200:]},
                            }
                        )
                    elif is_cand:
                        r["notes"].append(
                            f"counterexample not reproduced natively ({n['status']}): "
                            f"{cands[i]['label']} {a} {cands[i]['detail'][-700:]}"
                        )
                        need_fallback = True
                    else:
                        r["validation_runs"] += 1
                        if n["status"] == "ok":
                            r["validated"] += 1
                        else:
                            r["notes"].append(f"validation run ended {n['status']} {n.get('label', '')}")
    if need_fallback and not r["violations"]:
        fb, flog = worker("fallback", mod, cfg, fb_budget, tmp=tmp)
        if fb is None:
            r["notes"].append("fallback gave no result: " + flog[-600:])
        else:
            r["fallback"] = {k: fb[k] for k in ("runs", "distinct", "ends")}
            for f in fb["fails"]:
                r["violations"].append(
                    {"assignment": f["used"], "label": f["label"], "detail": f["detail"], "solver": None}
                )
    return r


def known_findings(prop):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("finding:") and f"property={prop} " in line + " ":
                key = [w for w in line.split() if w.startswith("key=")]
                out.append((key[0][4:] if key else None, line))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default=None, help="substring of configuration names")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    from harness import REGISTRY

    prop = a.property
    modname = REGISTRY[prop]
    harness = importlib.import_module("harness." + modname)
    cfgs = harness.configs(a.tier, prop)
    if a.only:
        cfgs = [c for c in cfgs if a.only in c["name"]]
    budget = 240 if a.tier == "quick" else 1500
    fb_budget = 40 if a.tier == "quick" else 240
    tmp = tempfile.mkdtemp(prefix="verif-")
    # whole-check limits: stay clear of 900 s (quick) whatever the code does
    limit = 560 if a.tier == "quick" else 6 * 3600
    results = []
    try:
        with concurrent.futures.ThreadPoolExecutor(WORKERS) as ex:
            def job(c):
                left = limit - (time.time() - t0)
                if left < 20:
                    return {"cfg": c, "violations": [], "notes": ["not run: time limit"],
                            "fallback": None, "sym": None, "validated": 0, "validation_runs": 0}
                return run_config(modname, c, min(budget, left), min(fb_budget, max(10, left / 3)), tmp)
            for r in ex.map(job, cfgs):
                results.append(r)
                if a.v:
                    s = r["sym"]["stats"] if r["sym"] else {}
                    print(f"[{r['cfg']['name']}] paths={s.get('paths')} q={s.get('queries')} "
                          f"struct={s.get('structural')} "
                          f"bq={s.get('branch_queries')} solver={s.get('solver_s')} wall="
                          f"{r['sym'] and r['sym']['wall_s']} validated={r['validated']}/"
                          f"{r['validation_runs']} viol={len(r['violations'])} fb={r['fallback']}")
                    for n in r["notes"]:
                        print("   note:", n)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    known = known_findings(prop)
    os.makedirs(os.path.join(HERE, "evidence", "replays"), exist_ok=True)
    reported = 0
    suppressed = set()
    for r in results:
        for v in r["violations"]:
            key = v["label"].replace(" ", "_")
            hit = [k for k, line in known if k and key.startswith(k)]
            if hit:
                suppressed.add(hit[0])
                continue
            reported += 1
            h = hashlib.sha1(json.dumps([r["cfg"]["name"], v["label"]], default=str).encode()).hexdigest()[:8]
            path = os.path.join(HERE, "evidence", "replays", f"{prop}-{h}.json")
            with open(path, "w") as f:
                json.dump({"property": prop, "module": modname, "config": r["cfg"], **v}, f, indent=1, default=str)
            if reported <= 12:
                print(f"VIOLATION property={prop} replay={path}")
                print(f"   {r['cfg']['name']}: {v['label']} with {v['assignment']}")
                if a.v:
                    print(v["detail"])
    for k, line in known:
        print("KNOWN-FINDING: " + line[len("finding:"):].strip())
    write_evidence(prop, a.tier, harness, results, reported, time.time() - t0)
    n_fb = sum(1 for r in results if r["fallback"])
    print(
        f"{prop}: {len(results)} configurations, "
        f"{sum(r['sym']['stats']['paths'] for r in results if r['sym'])} paths, "
        f"{sum(r['sym']['stats']['queries'] for r in results if r['sym'])} queries, "
        f"{sum(r['validated'] for r in results)} validated runs, {n_fb} fallbacks, "
        f"{reported} violations, {time.time() - t0:.1f} s"
    )
    return 1 if reported else 0


def write_evidence(prop, tier, harness, results, reported, wall):
    syms = [r["sym"] for r in results if r["sym"]]

    def tot(k):
        return sum(s["stats"][k] for s in syms)

    funcs = sorted({f for s in syms for f in s["functions"]})
    covers = sorted({c for s in syms for c in s["covers"]})
    samples = []
    for r in results[:4]:
        if r["sym"] and r["sym"]["models"]:
            samples.append({"configuration": r["cfg"]["name"], "path_model": r["sym"]["models"][0]})
    labels = {}
    for s in syms:
        for k, v in s["stats"]["labels"].items():
            labels[k] = labels.get(k, 0) + v
    ev = {
        "property": prop,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "model_checking",
        "coverage": {
            "states": tot("paths"),
            "transitions": tot("decisions") + tot("concretized"),
            "traces_validated_against_impl": sum(r["validated"] for r in results),
            "samples": samples or [{"note": "no path completed"}],
            "states_meaning": "feasible paths of the symbolic execution, each covering all values "
            "of the symbolic inputs that follow it",
            "transitions_meaning": "solver-decided branch points along those paths",
            "configurations": [
                {
                    "name": r["cfg"]["name"],
                    "paths": r["sym"]["stats"]["paths"] if r["sym"] else 0,
                    "queries": r["sym"]["stats"]["queries"] if r["sym"] else 0,
                    "complete": bool(r["sym"] and r["sym"]["complete"] and not r["sym"]["problems"]),
                    "fallback": r["fallback"],
                    "notes": [n[:300] for n in r["notes"]],
                }
                for r in results
            ],
            "all_configurations_complete": all(
                r["sym"] and r["sym"]["complete"] and not r["sym"]["problems"] for r in results
            ),
            "queries_discharged": tot("unsat"),
            "queries": tot("queries"),
            "assertions_closed_without_query": tot("structural"),
            "branch_queries": tot("branch_queries"),
            "solver_unknown": tot("unknown"),
            "branch_unknown": tot("branch_unknown"),
            "solver_s": round(tot("solver_s"), 2),
            "solver": "z3",
            "functions_encoded": funcs,
            "assertions": labels,
            "behaviours_reached": covers,
            "bounds": getattr(harness, "BOUNDS", {}).get(prop, getattr(harness, "BOUNDS", {}).get("*", "")),
            "outside_bounds": getattr(harness, "OUTSIDE", {}).get(prop, getattr(harness, "OUTSIDE", {}).get("*", "")),
        },
        "assumptions": getattr(harness, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": reported,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)


if __name__ == "__main__":
    sys.exit(main())
