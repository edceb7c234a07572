#!/usr/bin/env python3
"""writes MANIFEST.json from check.py's tables and properties.jsonl"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import check
na = {}
checks = []
for l in open(H + "/properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    if i not in check.PLAN and i not in check.PARTS:
        na.update({i: "machinery not built yet"})
        continue
    fams = ", ".join(check.NAME[f] for f in check.PLAN.get(i, {}))
    checks.append(dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="VERIF_TIER=thorough python3 check.py " + i,
                       technique="TLA+ specification checked with TLC: " + check.TECH.get(i, "behaviours generated from the specification run on the real code, recorded traces validated against it") +
                       (" (%s)" % fams if fams else ""),
                       level="model_checking",
                       level_note=check.NOTE.get(i, "") + "TLC decides every recorded trace of the real code against spec/Obs.tla; behaviours and schedules are a sample of a very large space, so the check is bounded, not a proof. Trusted: the driver's recording, the in-memory transport, synctest's virtual clock."))
json.dump(dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in na.items()],
               notes="No hooks in /repo: the driver uses the public API and instruments a copy of the sources at check time (go build -overlay)."),
          open(H + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
