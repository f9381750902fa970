#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
from check_notes import NOTES
sys.path.insert(0, os.path.join(VERIF, "harness"))
import guided
props = [json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in NOTES:
        na.append({"property": i, "reason": "no check yet"})
        continue
    technique, note = NOTES[i]
    if i in guided.RUNS:
        technique += "; then coverage-guided search (libFuzzer) over the generator's choices"
    checks.append({
        "property": i,
        "quick_cmd": "python3 harness/run.py %s --tier quick" % i,
        "thorough_cmd": "python3 harness/run.py %s --tier thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": technique,
        "level": "exploration",
        "level_note": note,
    })
doc = {"version": 1, "setup_cmd": "python3 harness/setup.py", "checks": checks, "not_applicable": na,
       "notes": "No hooks: everything is observed through the headers as they are. Harnesses are rebuilt from /repo/include by every check; build output goes to /verif/build, failures to /verif/replay (replayed with 'python3 harness/run.py <id> --replay <file>')."}
json.dump(doc, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
