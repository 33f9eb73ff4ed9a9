#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
T = {"C01": "sanitizers (ASan, UBSan, MSan) and a watchdog over hostile workloads",
     "C05": "ASan red zones around exact-size outputs, return-value monitor",
     "C24": "online value-model monitor over random object histories, ASan/MSan",
     "C25": "heap-balance monitor over random object histories, ASan",
     "C26": "allocation-fault injection at every C-allocator call, ASan",
     "C28": "memory-residue monitor on destroyed objects and freed heap blocks",
     "C31": "differential monitor under hostile random sources, ASan/UBSan"}
cs = []
for p in props:
    i = p["id"]
    c = CHECKS[i]
    cs.append({"property": i, "quick_cmd": "python3 run.py %s --tier quick" % i, "thorough_cmd": "python3 run.py %s --tier thorough" % i,
               "technique": T.get(i, "online monitor against an independent reference model, under ASan/UBSan"),
               "level": c["level"],
               "level_note": (c["note"] + " " if c["note"] else "") + "Judges executions only: " + c["rule"] + " Assumes: " + "; ".join(c["assumptions"]) + "."})
json.dump({"version": 1, "setup_cmd": "python3 run.py --selftest", "checks": cs, "not_applicable": [],
           "notes": "No hooks in /repo: the harness uses the public API only, link-time wrapping of the C allocator and its own random32()."},
          open(V + "/MANIFEST.json", "w"), indent=1)
