"""Writes MANIFEST.json from the property list and the checks in props.py."""
import json
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from gen_properties import P
from props import PROPS

PURE = {
    "J01": "A pure function of its input on in-memory strings: no thread, clock, I/O or peer can affect it, so there is nothing for a simulator to decide (file parsing under I/O faults is R01).",
    "J02": "A JSON value is documented as an unsynchronised in-memory container: no schedule, time or fault is involved.",
    "U01": "Pure conversion of in-memory strings: no schedule, clock, I/O or fault.",
    "F01": "Pure formatting into a string: no schedule, clock, I/O or fault.",
    "A01": "Pure text conversion of value types: no schedule, clock, I/O or fault.",
    "B01": "Pure function of the bytes on a healthy stream; the part that meets faults is claimed as E01, E02 and E03.",
}
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks, na = [], []
for x in P:
    pid = x["id"]
    if pid in PROPS:
        checks.append({
            "property": pid,
            "quick_cmd": "python3 run.py check %s --tier quick" % pid,
            "thorough_cmd": "python3 run.py check %s --tier thorough" % pid,
            "technique": "deterministic simulation with fault injection: seeded search over schedules, timing and faults of the real code",
            "level": "exploration",
            "level_note": PROPS[pid]["note"],
        })
    else:
        na.append({"property": pid, "reason": PURE.get(pid, "No check yet: the simulated workload for this part is still being built.")})
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks, "not_applicable": na,
     "notes": "One seeded simulator (sim/) hosts the real library, compiled unmodified from /repo with access instrumentation; workloads and "
              "oracles are in scen/. Replay a reported case with: python3 run.py replay FILE [2]. No hooks in /repo are needed: every seam is at "
              "the system-call, C library and instrumentation boundary."}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "claimed", len(na), "not applicable")
