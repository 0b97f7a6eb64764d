#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl") if l.strip()]
checks = []
for i in ids:
    if i not in PROPS:
        continue
    p = PROPS[i]
    checks.append({
        "property": i,
        "quick_cmd": f"VERIF_TIER=quick python3 tools/check.py {i}",
        "thorough_cmd": f"VERIF_TIER=thorough python3 tools/check.py {i}",
        "evidence_file": f"evidence/{i}.json",
        "technique": p.get("technique", "runtime monitoring: AddressSanitizer + UBSan build of the real code, "
                           "generated workloads, independent reference oracle watching every case"),
        "level": "exploration",
        "level_note": p.get("note", "Held on every generated case of the seed; nothing is claimed beyond the cases "
                            "counted in the evidence. Trusts the reference oracle in harness/ and the sanitizers."),
    })
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks,
     "not_applicable": [{"property": i, "reason": "check under construction"} for i in ids if i not in PROPS],
     "notes": "No hooks in /repo: all monitors observe the public interface. known_findings.txt lists defects."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
