"""Runs the input recorded in a replay file against the real package:
python tools/replay.py evidence/replays/C04-....json"""
import json
import os
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
r = json.load(open(sys.argv[1]))
with tempfile.TemporaryDirectory() as tmp:
    a, out = os.path.join(tmp, "in"), os.path.join(tmp, "out")
    json.dump([r["assignment"]], open(a, "w"))
    subprocess.check_call([sys.executable, "-B", os.path.join(ROOT, "worker.py"), "native", r["module"], json.dumps(r["config"]), out, "300", a],
                          cwd=tmp, env=dict(os.environ, PYTHONHASHSEED="0"))
    n = json.load(open(out))[0]
print(r["property"], r["config"]["name"], r["assignment"])
print(n["status"], n.get("label", ""))
print(n.get("detail", ""))
sys.exit(n["status"] == "fail")
