"""Nothing is compiled: make sure the interpreter, the package and z3 are there."""
import os
import sys

sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import numpy  # noqa

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3  # noqa

s = z3.Solver()
x = z3.Int("x")
s.add(x * x == 49, x > 0)
assert s.check() == z3.sat and s.model()[x].as_long() == 7
os.makedirs(os.path.join(ROOT, "evidence", "replays"), exist_ok=True)
print("z3", z3.get_version_string(), "numpy", numpy.__version__)
