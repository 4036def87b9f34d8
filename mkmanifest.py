#!/usr/bin/env python3
"""Writes MANIFEST.json from the plan and properties.jsonl."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from xa import plan  # noqa

TECH = {
    None: "Path-sensitive typestate/effect analysis (abstract interpretation) of the LLVM IR of every public operation",
    "types": "Type-level witnesses: static_assert obligations and compile-fail programs",
}
NOTE = {
    None: ("Every path of every listed operation is analysed from every ownership/aliasing shape of its operands, counts being symbolic. "
           "Trusts clang's IR, the transfer functions of the abstract interpreter, and that the instantiations in /verif/witness stand for all. "),
    "types": "Every obligation is decided for the instantiations listed in xa/s_types.py; that they stand for all others is an assumption. Trusts clang's front end. ",
}
NA = {
    "C32": "Needs a bound on the number of references a program creates at run time; the counters are plain 32-bit integers and nothing in the source bounds it, so no static argument can decide it (and a run-time test is not wanted here).",
    "C44": "Fairness of the competition for a spin lock or a compare-exchange is decided by the scheduler and the hardware, not by the source (a test-and-set lock promises none); what the source does decide, that an operation finishes once it is left alone, is C33.",
}


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        try:
            names = [n for n, _ in plan.base(i)]
        except KeyError:
            na.append({"property": i, "reason": NA.get(i, "no check yet")})
            continue
        t = plan.TECH.get(i) or TECH["types" if names and set(names) == {"types"} else None]
        checks.append({"property": i, "quick_cmd": "python3 run.py " + i, "thorough_cmd": "python3 run.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": t, "level": "other",
                       "level_note": NOTE["types" if set(names) == {"types"} else None] + plan.NOTE.get(i, "")})
    m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na,
         "notes": "Static analysis of the headers in /repo/code; no hooks in /repo. known-findings.json lists the known finding and the repaired defects."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
