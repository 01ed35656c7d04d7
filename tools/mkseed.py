"""Make and confirm a planted change: mkseed.py SPEC.py [checks...]

SPEC.py defines id, property, needs, breaks, edits = [(file, old, new), ...] (relative to fv3gfs/util) and demo
(a Python program; it asserts).  Writes /verif/seeded/<id> after confirming in a scratch copy that the demonstration passes
without the change and fails with it and that the serial stable tests pass; then runs the checks on the copy.
"""
import json
import os
import re
import shutil
import subprocess
import sys

spec = {}
exec(open(sys.argv[1]).read(), spec)
sid = spec["id"]
W = f"/tmp/seedwork-{sid}"
shutil.rmtree(W, ignore_errors=True)
os.makedirs(W + "/a")
for d in ("fv3gfs", "tests"):
    shutil.copytree("/repo/" + d, f"{W}/a/{d}", ignore=shutil.ignore_patterns("__pycache__"))
for f in os.listdir("/repo"):
    if os.path.isfile("/repo/" + f):
        shutil.copy("/repo/" + f, f"{W}/a/{f}")
shutil.copytree(W + "/a", W + "/b")
for f, old, new in spec["edits"]:
    p = f"{W}/b/fv3gfs/util/{f}"
    s = open(p).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    open(p, "w").write(s.replace(old, new))
diff = subprocess.run(["git", "diff", "--no-index", "a/fv3gfs", "b/fv3gfs"], cwd=W, capture_output=True, text=True).stdout
diff = re.sub(r"([ab])/[ab]/fv3gfs", r"\1/fv3gfs", diff)
out = f"/verif/seeded/{sid}"
os.makedirs(out, exist_ok=True)
open(out + "/patch.diff", "w").write(diff)
open(out + "/demo.py", "w").write(spec["demo"])
open(out + "/demo.sh", "w").write(
    '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\n' + spec.get("pre", "")
    + 'timeout 250 /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
os.chmod(out + "/demo.sh", 0o755)
json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]},
          open(out + "/meta.json", "w"), indent=1)
r = subprocess.run(["git", "-C", "/repo", "apply", "--check", out + "/patch.diff"], capture_output=True, text=True)
assert r.returncode == 0, r.stderr
ok = True
for side, want in (("a", True), ("b", False)):
    r = subprocess.run(["bash", out + "/demo.sh"], cwd=f"{W}/{side}", capture_output=True, text=True)
    good = (r.returncode == 0) == want
    ok &= good
    print(sid, "demo on", side, "exit", r.returncode, "as wanted" if good else "WRONG", (r.stderr or r.stdout)[-300:])
env = dict(os.environ, PYTHONPATH=W + "/b", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1")
if "--notest" not in sys.argv:
    r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "6", "--timeout=120",
                        "--continue-on-collection-errors", "-o", "junit_family=xunit2", f"--junitxml={W}/j.xml", "tests",
                        "--ignore=tests/mpi"], cwd=W + "/b", env=env, capture_output=True, text=True)
    base = json.load(open("/opt/vp/BASELINE.json"))
    import xml.etree.ElementTree as ET
    bad = [t.get("classname") + "::" + t.get("name") for t in ET.parse(W + "/j.xml").iter("testcase")
           if t.find("failure") is not None or t.find("error") is not None]
    cmd = ("/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=60 --timeout-method=thread --continue-on-collection-errors "
           f"-o junit_family=xunit2 --junitxml={W}/mpi.$OMPI_COMM_WORLD_RANK.xml tests/mpi > {W}/mpi.$OMPI_COMM_WORLD_RANK.log 2>&1; exit 0")
    subprocess.run(["timeout", "-k", "10", "240", "mpirun", "-n", "6", "--allow-run-as-root", "--oversubscribe", "--mca", "btl", "self,vader",
                    "--mca", "btl_vader_single_copy_mechanism", "none", "bash", "-c", cmd], cwd=W + "/b", stdin=subprocess.DEVNULL,
                   env=dict(env, PMIX_MCA_gds="hash"), capture_output=True)
    for k in range(6):
        bad += [t.get("classname") + "::" + t.get("name") for t in ET.parse(f"{W}/mpi.{k}.xml").iter("testcase")
                if t.find("failure") is not None or t.find("error") is not None]
    r0 = r.stdout.strip().splitlines()[-1]
    stable = json.dumps(base)
    bad = [b for b in bad if b.split("::")[-1] in stable]
    print(sid, "tests:", r0, "; stable-looking failures:", bad[:5])
    ok &= not bad
print(sid, "CONFIRMED" if ok else "NOT CONFIRMED")
for c in [a for a in sys.argv[2:] if not a.startswith("-")] or [spec["property"]]:
    r = subprocess.run(["/opt/venv/bin/python", "check.py", c], cwd="/verif", env=dict(os.environ, VERIF_REPO=W + "/b"),
                       capture_output=True, text=True)
    print(sid, "check", c, "exit", r.returncode, [x[:160] for x in r.stdout.splitlines() if "VIOLATION" in x][:1])
shutil.rmtree(W, ignore_errors=True)
