#!/usr/bin/env python3
"""Brings the run counts of DESIGN.md's table in step with the sources."""
import os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
runs = {}
for c in ("sim_iri", "sim_rdf"):
    runs.update(re.findall(r'id: "(C\d\d)",\s+scenario: [^,]+,\s+runs: ([\d_]+)', open(f"{root}/{c}/src/main.rs").read()))
p = f"{root}/DESIGN.md"
out = []
for l in open(p):
    m = re.match(r"\| (C\d\d) \|.*\| [\d ]+ \|$", l)
    if m and m[1] in runs:
        l = re.sub(r"\| [\d ]+ \|$", f"| {int(runs[m[1]]):,} |".replace(",", " "), l)
    out.append(l)
open(p, "w").writelines(out)
