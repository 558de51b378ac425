#!/usr/bin/env python3
"""Writes MANIFEST.json from meta.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from meta import META
V = os.path.dirname(HERE)
TECH = {
    "model_checking": "model checking: explicit-state exploration of the real code, all operation sequences within the bounds, against an independent executable model",
    "fault_enumeration": "model checking: exhaustive fault injection on the real code over an in-memory device, every fault at every operation",
}
SCHED = "model checking: stateless exploration of all goroutine interleavings of the real code under a controlled scheduler, up to a preemption bound, with data race detection"
CRASH = "model checking: exhaustive enumeration of crash states (torn and reordered unsynced writes) of the real code's write histories"
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in META:
        m = META[i]
        t = m.get("technique") or (SCHED if m.get("sched") else CRASH if i == "C11" else TECH[m["level"]])
        checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=t, level=m["level"],
                           level_note=m.get("note", "exhaustive within the bounds listed in the evidence; see DESIGN.md")))
    else:
        na.append(dict(property=i, reason="not yet built"))
json.dump(dict(version=1, setup_cmd="bash tools/setup.sh", checks=checks, not_applicable=na,
               notes="No hooks in /repo: the explorer is built with a build overlay that replaces files of the standard library (system calls, scheduler) and sync/atomic uses; /repo is compiled as it is."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
