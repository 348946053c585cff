#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from catalog.py."""
import json, os
from catalog import PROPS
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")
m = {"version": 1,
     "setup_cmd": "python3 check.py --setup",
     "checks": [{
         "property": p["id"],
         "quick_cmd": "python3 check.py %s quick" % p["id"],
         "thorough_cmd": "python3 check.py %s thorough" % p["id"],
         "evidence_file": "evidence/%s.json" % p["id"],
         "technique": "property-based testing: " + p["technique"],
         "level": "exploration",
         "level_note": "Held on every generated case; no proof of absence. Oracle: %s. Thorough adds more seeds and cases and coverage-guided fuzzing (libFuzzer) of the same oracle; both tiers rerun part of the cases under ASan/UBSan.%s"
                       % (p["oracle"], (" Assumes: " + "; ".join(p["assumptions"]) + ".") if p["assumptions"] else "")}
         for p in PROPS],
     "not_applicable": [],
     "notes": "No hooks: the checks use the public API only. Findings and repairs are listed in known_findings.json."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
