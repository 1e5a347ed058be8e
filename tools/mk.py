#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables beside it."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
sys.dont_write_bytecode = True
root = os.path.dirname(here)
from props_iri import PROPS as A
try:
    from props_rdf import PROPS as B
except ImportError:
    B = []
from not_applicable import NA
props = A + B
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in props + [n["prop"] for n in NA]:
        o = dict(id=p["id"], title=p["title"], statement=p["statement"],
                 quantifier=dict(over=p["over"], text=p["qtext"]),
                 why_tests_cant=p["why"],
                 anchors=dict(files=p["files"],
                              mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                              observe_at=p["observe"], hook_needed=None))
        assert len(o["title"]) <= 80, o["title"]
        f.write(json.dumps(o, ensure_ascii=False) + "\n")
checks = []
for p in props:
    checks.append(dict(
        property=p["id"],
        quick_cmd=f"./run.sh {p['id']}",
        thorough_cmd=f"VERIF_TIER=thorough ./run.sh {p['id']}",
        evidence_file=f"evidence/{p['id']}.json",
        technique="deterministic simulation with fault injection: seeded search over interleavings, faults and crash points against a reference model",
        level="exploration",
        level_note=p.get("note", "Samples seeded schedules and fault sequences of the real code; a clean run is evidence, not proof. Trusts the simulator (simkit), its reference models and the generators' coverage of the input space.")))
man = dict(version=1, setup_cmd="./run.sh build", checks=checks,
           not_applicable=[dict(property=n["prop"]["id"], reason=n["reason"]) for n in NA],
           notes="No hooks in /repo are needed: the code takes its readers, writers and formatters as arguments, and entropy, hash keys and clock are taken over at the process's getrandom and clock_gettime symbols; the system calls of the command line program at an LD_PRELOAD library. See DESIGN.md.")
json.dump(man, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
