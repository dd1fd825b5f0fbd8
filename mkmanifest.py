#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and gen/plan.py."""
import json, sys
sys.path.insert(0, "gen"); sys.dont_write_bytecode = True
import plan
props = [json.loads(l) for l in open("properties.jsonl")]
checks = []
for p in props:
    if p["id"] not in plan.PLAN: continue
    m = plan.PLAN[p["id"]].get("models", [])
    checks.append({
        "property": p["id"], "quick_cmd": "python3 check.py " + p["id"], "thorough_cmd": "python3 check.py " + p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": ("TLA+ model exhausted with TLC, behaviours replayed; " if m else "") + "TLC trace validation of recorded executions against the TLA+ specification",
        "level": plan.level(p["id"]),
        "level_note": (("Within the bounds of %s every state of the specification is explored and its behaviours are replayed in the code. " % ", ".join(m)) if m else "")
            + "Every clause of the property is evaluated by TLC on every event of generated executions of the real library (%s). "
              "Trusts TLC, the IEEE-double Java operators behind Num.tla, the driver's faithful recording; executions are sampled, not exhaustive." % ", ".join(f for f, _ in plan.PLAN[p["id"]]["families"])})
json.dump({"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": [],
           "notes": "No hooks: the public API exposes the whole state. Language: TLA+ with TLC. See DESIGN.md."}, open("MANIFEST.json", "w"), indent=1)
