#!/usr/bin/env python3
"""write properties.jsonl and MANIFEST.json from the lists below and contracts/props.py"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "contracts")); sys.path.insert(0, os.path.join(ROOT, "tools"))
from props import PROPS
from proplist import P, NA
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        pid, title, stmt, over, text, why, files, mech, obs = p
        assert len(title) <= 80, title
        f.write(json.dumps({"id": pid, "title": title, "statement": stmt, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
            "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": obs, "hook_needed": None}}) + "\n")
checks = []; na = []
for p in P:
    pid = p[0]
    if pid in PROPS and not PROPS[pid].get("off"):
        c = PROPS[pid]
        checks.append({"property": pid, "quick_cmd": "python3-vt engine/check.py %s quick" % pid, "thorough_cmd": "python3-vt engine/check.py %s thorough" % pid,
            "technique": c.get("technique", "contract-based deductive verification of the compiled source (LLVM IR), z3 discharging every obligation"),
            "level": c.get("level", "proof"), "level_note": c.get("note", "Contracts on the real functions; every obligation generated from the current source is discharged for all inputs.")
               + (" Bounded parts: " + "; ".join(c["bounded"]) if c.get("bounded") else "")})
    else: na.append({"property": pid, "reason": NA.get(pid, "not decided yet: no contract built")})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
  "notes": "engine/check.py compiles contracts/<ID>.cpp, which includes the unmodified sources of /repo, to LLVM IR and discharges every obligation; see DESIGN.md."},
  open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", len(na), "not applicable:", [n["property"] for n in na])
