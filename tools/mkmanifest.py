#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, the registry and the reasons below."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "engine"))
import registry
WHY = {
 "C41": "How rounding errors add up over a history of merges quantifies over run-time values; no sound static argument in reach bounds it. The formulas of single steps are decided in C21, C24 and C25.",
 "C42": "Wall-clock age depends on the rate of SimpleCycleTimer, on scheduling and on when the caller's timer fires; the source only fixes which limits are configured (C33, C34) and when expiry is applied (C09, C37).",
 "C43": "Linearizability quantifies over histories; the static part (one common lock over all state, C01, and callbacks outside it, C02) is claimed separately.",
}
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.RULES:
        checks.append(dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="python3 check.py " + i,
            technique=registry.TECH.get(i, registry.TECHNIQUE), level="other", level_note=registry.EXPLAIN[i] + " " + registry.TRUST))
    else: na.append(dict(property=i, reason=WHY.get(i, "No check is registered yet for this property.")))
m = dict(version=1, setup_cmd="python3 engine/build.py", checks=checks, not_applicable=na,
         notes="Thorough runs (VERIF_TIER=thorough) raise every analysis limit eightfold and repeat the analysis on the NDEBUG configuration.")
open(os.path.join(H, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks,", len(na), "not applicable")
