#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and plans.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from plans import MACROS, MC, NOTE, OBJECTS, RANDOM
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    if not (p in MACROS or p in MC or p in RANDOM or p in OBJECTS):
        na.append(dict(property=p, reason="The check is still being built."))
        continue
    checks.append(dict(property=p, quick_cmd=f"python3 tools/check.py {p}", thorough_cmd=f"VERIF_TIER=thorough python3 tools/check.py {p}",
        technique="TLA+ specification checked with TLC, bound to the code by executing its behaviours and validating recorded runs against it",
        level="model_checking", level_note=NOTE))
json.dump(dict(version=1, setup_cmd="cd harness && CARGO_TARGET_DIR=/verif/target cargo build --offline --quiet", checks=checks, not_applicable=na,
               notes="No hooks: everything the checks need is public API of the crate."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
