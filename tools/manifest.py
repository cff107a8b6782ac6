#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the harness directories present."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
NOTE = ("For every input within the bounds stated in DESIGN.md and in the harness sources, an SMT solver (or the engine's exact "
  "polynomial/interval reasoning) decides the assertions on every explored path of the real code, re-encoded from /repo's source (go/ssa) on each run. "
  "Nothing is claimed outside the bounds, nor for paths or assertions the evidence lists as undecided. A violation is reported only after "
  "it is reproduced by the compiled code. Trusted: go/ssa, the engine's semantics (cross-checked against compiled runs), the solvers.")
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA or not os.path.isdir(os.path.join(root, "harness", i)):
        na.append({"property": i, "reason": NA.get(i, "no check has been built for it yet")})
        continue
    checks.append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"./check.sh {i} -tier thorough",
      "evidence_file": f"evidence/{i}.json",
      "technique": "symbolic execution of the real Go code (go/ssa) with SMT-decided assertions, counterexamples replayed natively",
      "level": "model_checking", "level_note": NOTE})
json.dump({"version": 1, "setup_cmd": ". engine/env.sh && cd engine && go build -buildvcs=false -o /dev/null .",
  "checks": checks, "not_applicable": na,
  "notes": "No hooks: in-package harnesses are compiled in through an overlay. known_findings.json lists genuine defects."},
  open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
