"""Regenerates section 7 of DESIGN.md from seeded/*/meta.json and tools/seed_results.json ({id: {caught, note}})."""
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = """## 7. Planted bugs

Each was written from a property's text and the code alone, then confirmed in a scratch clone: the patched tree
passes the repository's tests, the demonstration exits 0 without and non-zero with the patch.  "first" is the
result of the quick check as it stood when the bug was planted, "now" after strengthening (the check of the
bug's own property, exit 1 with its VIOLATION line).

| bug | needs | first | now |
|---|---|---|---|
"""
res = json.load(open(os.path.join(ROOT, "tools", "seed_results.json")))
rows = []
for f in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    k = os.path.basename(os.path.dirname(f))
    m = json.load(open(f))
    r = res.get(k, {})
    s = lambda v: {True: "caught", False: "missed"}.get(v, "?")
    rows.append(f"| {k} | {m['needs']} | {s(r.get('first'))} | {s(r.get('now'))} |")
n = sum(1 for k, r in res.items() if r.get("first") is False)
tail = f"""
Besides these, automatically generated mutants of every source file (constants, comparisons, operators, dropped
arguments and statements) that survive the test files of their module were run against the checks; each mutant
that no check noticed was inspected and either is equivalent / outside the properties (initial values of random
parameters, tolerances of equal effect, error texts) or led to a stronger check.
"""
p = os.path.join(ROOT, "DESIGN.md")
t = open(p).read()
i = t.find("## 7. Planted bugs")
t = (t if i < 0 else t[:i]).rstrip() + "\n\n" + HEAD + "\n".join(rows) + "\n" + tail
open(p, "w").write(t)
print(len(rows), "bugs;", n, "first missed")
