"""Put the measured costs (lines 'C01 rc=0 8s ...') into the table of DESIGN.md section 3."""
import re
import sys

T = {m[1]: m[2] for m in re.finditer(r"^(C\d\d) rc=\d+ (\d+)s", open(sys.argv[1]).read(), re.M)}
s = open("/verif/DESIGN.md").read().split("\n")
for i, l in enumerate(s):
    m = re.match(r"\| (C\d\d)([–,] ?)?(C\d\d)? \|", l)
    if not m:
        continue
    a, b = int(m[1][1:]), int((m[3] or m[1])[1:])
    c = ", ".join(T.get("C%02d" % k, "?") for k in range(a, b + 1))
    s[i] = re.sub(r"\| [\d, ]+ s \|$", f"| {c} s |", l)
open("/verif/DESIGN.md", "w").write("\n".join(s))
