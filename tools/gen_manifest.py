#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
from props import PROPS
NA = {
 "C18": "Pure functions of their input: no schedule, clock, I/O or fault occurs in the value of a split, join, trim or number format, so there is nothing to simulate. "
        "(Their behaviour on concurrent callers, failing memory and damaged text is claimed in C02, C15 and C17.)",
 "C19": "A round trip on intact data is a pure function; simulation would only dress up input generation. (Decoding of damaged data is claimed in C14, failing memory in C15.)",
 "C20": "Value algebra of small types: no concurrency, time, I/O or fault to inject.",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for i in ids:
    if i in PROPS:
        c = PROPS[i]
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s --tier quick" % i,
            "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "technique": "deterministic simulation with fault injection: " + c["technique"],
            "level": "exploration",
            "level_note": c["note"],
        })
na = [{"property": i, "reason": NA.get(i, "Check not built yet.")} for i in ids if i not in PROPS]
m = {"version": 1, "setup_cmd": "python3 check.py --selftest", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the seams are compiler instrumentation with a runtime of our own, symbol interposition and linker wrapping. "
              "fix: commits in /repo are listed in KNOWN_FINDINGS.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
