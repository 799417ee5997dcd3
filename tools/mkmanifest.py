#!/usr/bin/env python3
"""Write MANIFEST.json from the properties and props.py."""
import json
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import props

TOP = os.path.dirname(HERE)
SPEC = ("TLA+ specification of the assembler (spec/Dasm.tla) checked with TLC. Recorded runs of the built binary "
        "are replayed against it line by line")
HEX = "TLA+ specification of the conversion (spec/Hex.tla) checked with TLC. Recorded runs of the built ftohex are replayed against it"
NOTE = ("The specification is executable and deterministic. Every recorded run is one behaviour and TLC explores it completely, "
        "comparing each step with the recorded listing line and the end with the recorded results. "
        "Programs are generated from a seed within the bounds given in DESIGN.md.")


def main():
    ids = [json.loads(l)["id"] for l in open(os.path.join(TOP, "properties.jsonl"))]
    checks = []
    for i in ids:
        if i not in props.PROPS:
            continue
        p = props.PROPS[i]
        cmd = "python3 tools/check.py %s --tier " % i
        tech = HEX if "hex" in p else SPEC
        note = NOTE
        if p.get("models"):
            tech += "; exhaustive TLC models: " + ", ".join(p["models"])
            note += " The models explore every program over a small alphabet of lines."
        if p.get("watched"):
            note += " The recorded runs are those of a build with address and bounds checking."
        checks.append({"property": i, "quick_cmd": cmd + "quick", "thorough_cmd": cmd + "thorough", "technique": tech,
                       "level": "model_checking", "level_note": note, "evidence_file": "evidence/%s.json" % i})
    m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks,
         "not_applicable": [{"property": i, "reason": props.NOT_APPLICABLE[i]} for i in ids if i not in props.PROPS],
         "notes": "All commands run in /verif and build dasm and ftohex from /repo in a scratch directory. "
                  "No hooks: the listing of all passes (-L) already shows every step."}
    with open(os.path.join(TOP, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
