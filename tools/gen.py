"""Writes properties.jsonl and MANIFEST.json from tools/properties.py and the
registry of harnesses. Run after changing either: python tools/gen.py"""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, ROOT)
sys.path.insert(0, os.path.join(ROOT, "tools"))
from harness import REGISTRY  # noqa
from properties import NOT_APPLICABLE, P  # noqa

TECH = (
    "symbolic execution of the real Python functions (imported from /repo on every run with symbolic "
    "integers, reals and arrays), assertions decided by z3 for all values within bounds, counterexamples replayed natively"
)
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]]},
        }) + "\n")
checks, na = [], []
for p in P:
    i = p["id"]
    if i in REGISTRY:
        cmd = f"/opt/venv/bin/python check.py {i} --tier "
        mod = __import__("harness." + REGISTRY[i], fromlist=["x"])
        b = getattr(mod, "BOUNDS", {})
        o = getattr(mod, "OUTSIDE", {})
        bound = b.get(i, b.get("*", ""))
        out = o.get(i, o.get("*", ""))
        assert bound, i
        checks.append({
            "property": i, "quick_cmd": cmd + "quick", "thorough_cmd": cmd + "thorough",
            "technique": p["tech"] or TECH, "level": "model_checking",
            "level_note": (p["note"] + " " if p["note"] else "") + "Bounds: " + bound
            + (". Outside: " + out if out else ""),
        })
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python tools/setup.py", "checks": checks,
           "not_applicable": na}, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable:", [x["property"] for x in na])
