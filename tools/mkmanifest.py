#!/usr/bin/env python3
"""Writes MANIFEST.json from sim/spec.py and the not-applicable reasons below."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "sim"))
from spec import SPECS
PURE = "pure function of its operands: no schedule, time, I/O, allocation or crash it could depend on, so simulation with fault injection would only re-run it on random inputs"
NA = {"C15": PURE, "C16": PURE, "C17": PURE, "C18": PURE, "C19": PURE,
      "C20": "parsing an in-memory string is a pure function of it; the way numerals reach it through failing devices, crashes and restarts is covered by C03, C13 and C14",
      "C21": PURE, "C22": "constant evaluation happens inside the compiler: there is no execution to schedule or inject faults into"}
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for p in props:
    if p in SPECS:
        s = SPECS[p]
        checks.append({"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p, "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                       "evidence_file": "evidence/%s.json" % p, "technique": "deterministic simulation with fault injection: " + s["technique"], "level": s["level"], "level_note": s["note"]})
na = [{"property": p, "reason": NA.get(p, "check not built yet")} for p in props if p not in SPECS]
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the seams are stream buffers, interposed allocator and system calls, compiler instrumentation and the CUDA macros the library already has."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
