#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/props.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS, NOT_APPLICABLE, titles
checks = []
for p in sorted(PROPS):
  c = PROPS[p]
  by = []
  if c.get("kani"): by.append("Kani/CBMC discharges the contracts on the real functions")
  if c.get("verus"): by.append("Verus/Z3 discharges contracts and loop invariants on mechanically extracted functions")
  checks.append(dict(property=p, quick_cmd="python3 tools/check.py %s quick" % p,
    thorough_cmd="python3 tools/check.py %s thorough" % p,
    technique="contract-based deductive verification: " + "; ".join(by) + "; the same contracts run natively to replay counterexamples",
    level=c["level"], level_note=c.get("bounds") or c.get("explanation") or "every obligation discharged without bound on the inputs stated in the contracts"))
na = [dict(property=p, reason=NOT_APPLICABLE.get(p, "machinery for this property is not built yet")) for p in sorted(titles()) if p not in PROPS]
json.dump(dict(version=1, setup_cmd="bash tools/setup.sh", hooks=dict(guard="none", enable="no hooks are needed: contracts use the public API or mechanical copies made on every run", source_commits=[]), checks=checks, not_applicable=na),
  open(os.path.join(os.path.dirname(HERE), "MANIFEST.json"), "w"), indent=1)
