"""Rewrite the list of seeded changes at the end of DESIGN.md."""
import glob
import json
import os

p = os.path.join(os.path.dirname(__file__), "..")
s = open(p + "/DESIGN.md").read()
head = "## 8. Which check catches which seeded change\n"
out = []
for d in sorted(glob.glob(p + "/seeded/*/meta.json")):
    m = json.load(open(d))
    out.append(f"* `{os.path.basename(os.path.dirname(d))}` ({m['property']}): {m['what_it_breaks']}. {m.get('caught', 'Caught by ' + m['property'])}.\n")
open(p + "/DESIGN.md", "w").write(s[: s.index(head)] + head + "\n" + "".join(out))
