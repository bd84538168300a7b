#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the registry."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import registry
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 "C30": "Quantifies over the program's actual execution: the oracle (what the processor executed) is a runtime quantity; no static argument over this source bounds it.",
 "C31": "Accuracy and monotonicity of estimated time depend on the values of timing packets in a trace; the estimate is a non-linear function of runtime history that no static domain in reach relates to real time.",
 "C32": "Linearizability quantifies over interleavings of observable results; lockset and lock-order analysis (C09-C11) covers the locking discipline but does not decide equivalence to a sequential order.",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "make -C ptai -j4",
     "checks": [{"property": i, "quick_cmd": "python3 tools/check.py " + i, "thorough_cmd": "python3 tools/check.py " + i,
                 "evidence_file": "evidence/%s.json" % i, "technique": registry.CHECKS[i]["technique"], "level": "other",
                 "level_note": registry.CHECKS[i]["note"]} for i in ids if i in registry.CHECKS],
     "not_applicable": [{"property": i, "reason": NA.get(i, "Analysis not finished; not claimed yet.")} for i in ids if i not in registry.CHECKS]}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print("claimed", [c["property"] for c in m["checks"]], "na", [c["property"] for c in m["not_applicable"]])
