#!/usr/bin/env python3
"""rewrites /verif/MANIFEST.json from the checks there are"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "TLA+ specification model checked with TLC; behaviours of the specification replayed into the real code, and the recorded traces judged by TLC against the specification"
NOTE = {
    "default": "The specification's design model is explored exhaustively within small constants, and deliberately broken variants of it are shown to be found. The real code is bound to the specification by judging recorded executions (exhaustive small scenarios where stated in DESIGN.md, and random larger ones), so what holds is shown for the executions explored, not for all inputs. Trusted: TLC, the drivers' recording and value encodings, the storage stand-ins.",
    "C10": "As default; schedules of the reading processes are perturbed by seeded delays and by slow and stopping consumers, not enumerated in the real code; the protocol is explored exhaustively in the model.",
    "C11": "As default; thread interleavings of the real code are controlled by a deterministic scheduler at line granularity, over sampled schedules.",
    "C04": "As default; the kill points are every executed line of the writing code of each scenario (enumerated, or sampled in the quick tier).",
}
LEVEL = {"C04": "fault_enumeration"}

checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    if os.path.exists(os.path.join(V, "checks", p.lower() + ".py")):
        checks.append(dict(property=p, quick_cmd=f"python3 check.py {p}", thorough_cmd=f"python3 check.py {p} --thorough",
                           technique=TECH, level="model_checking",
                           level_note=NOTE.get(p, NOTE["default"]).replace("As default", NOTE["default"].split(" Trusted")[0])))
    else:
        na.append(dict(property=p, reason="no check has been built for it yet"))
m = dict(version=1, setup_cmd="python3 lib/setup.py", checks=checks, not_applicable=na,
         notes="Specifications in spec/ (TLA+), checked with TLC. See DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
