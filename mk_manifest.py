#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the check modules that exist."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python run.py"
TECH = {
    "default": "runtime monitoring: reference-model oracle over randomised hostile workloads on the real code",
    "C01": "runtime monitoring: pointwise oracle on operation results plus hooks on the operations inside real inference",
    "C02": "runtime monitoring: pointwise oracle on operation results plus hooks on the operations inside real inference",
    "C03": "runtime monitoring: lockstep differential execution of both representations against a reference trace",
    "C08": "runtime monitoring: operand snapshots around every call and mutation (taint) injection into results and arguments",
    "C10": "runtime monitoring: online invariant checker over every prefix of randomised message schedules",
    "C13": "runtime monitoring: trace-specification checker over recorded message events",
    "C19": "runtime monitoring: metamorphic execution across renamings, permutations and interpreter hash seeds",
    "C20": "runtime monitoring: statistical oracle over sampled executions",
    "C22": "runtime monitoring: fault injection of invalid calls with state monitors before and after",
    "C23": "runtime monitoring: differential execution with and without observation tools",
    "C26": "runtime monitoring: differential traces of interrupted and uninterrupted runs",
    "C27": "runtime monitoring: online support monitor over every prefix of message passing",
    "C28": "runtime monitoring: printed text and drawn matplotlib artists of executions read back and compared with the reference function",
    "C29": "runtime monitoring: differential execution alone, interleaved, pre-empted and threaded, with monitors of process-wide state",
}
props = [json.loads(line) for line in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    mod = os.path.join(HERE, "vmon", "checks", pid.lower() + ".py")
    if os.path.exists(mod):
        checks.append(dict(
            property=pid, quick_cmd=f"{PY} {pid} --tier quick", thorough_cmd=f"{PY} {pid} --tier thorough",
            evidence_file=f"evidence/{pid}.json", technique=TECH.get(pid, TECH["default"]), level="exploration",
            level_note="no violation on the executions observed; the workload, monitors and bounds are in DESIGN.md "
                       "and the evidence file counts what was observed"))
    else:
        na.append(dict(property=pid, reason="check not built yet"))
manifest = dict(version=1, setup_cmd=f"{PY} --setup", checks=checks, not_applicable=na)
json.dump(manifest, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
