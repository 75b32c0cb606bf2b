#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
TECH = "TLA+ specification checked with TLC; trace validation of the implementation against it"
NOTE = {}
checks = []
for p in props:
    i = p['id']
    checks.append({"property": i, "quick_cmd": "python3 harness/check.py " + i,
                   "thorough_cmd": "VERIF_TIER=thorough python3 harness/check.py " + i,
                   "evidence_file": "evidence/{}.json".format(i), "technique": TECH, "level": "model_checking",
                   "level_note": "Scenarios generated from VERIF_SEED run on the library through its public interface; TLC "
                   "computes every outcome from spec/Study.tla with 40-digit reals and compares each recorded call. "
                   "Bounded: small grids and short series; sampled, not exhaustive. Trusted: TLC, the Java real-number "
                   "overrides (checked by MCReals) and the driver's encoding of calls."})
json.dump({"version": 1, "setup_cmd": "python3 harness/setup.py", "checks": checks, "not_applicable": [],
           "notes": "Specification in spec/, conformance harness in harness/, see DESIGN.md. Known findings and repaired "
                    "defects: known_findings.json. No hooks: only the public interface of the library is used."},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
