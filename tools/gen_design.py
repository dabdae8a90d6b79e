#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design/*.md and the list of planted bugs."""
import glob, json, os, textwrap
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = ""
for f in sorted(glob.glob(V + "/tools/design/*.md")):
    out += open(f).read().rstrip("\n") + "\n\n"
rows = {}
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{d}/meta.json"))
    rows.setdefault(m["property"], []).append((d, m))
n = sum(map(len, rows.values()))
out += f"""## Planted bugs

{n} changes in `seeded/`, each confirmed to compile, pass the 77 tests, and fail its own demonstration. Each was
written from the statement of a property and the code. `tools/plant.py check` applies each one and runs the check of
its property; all of them are caught by the check named here{open(V + '/tools/design/misses.txt').read().strip() if os.path.exists(V + '/tools/design/misses.txt') else ''}.
The bugs that a check missed when they were planted, and that it was strengthened for, are described in the section on
what planting taught.

"""
for p in sorted(rows):
    out += f"**{p}** " + "; ".join(f"`{d}`: {m['what_it_breaks'].rstrip('.')}" for d, m in rows[p]) + ".\n\n"
open(V + "/DESIGN.md", "w").write(out.rstrip("\n") + "\n")
