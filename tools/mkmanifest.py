#!/usr/bin/env python3
"""Generates /verif/MANIFEST.json from the suites."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "mon"))
import suites

TECH = {
    "default": "runtime monitoring: offline checker comparing every saved file with a reference model of the call history",
    "C14": "runtime monitoring: infoset comparison of parts before and after, refusal monitor over damaged parts",
    "C16": "runtime monitoring under fuzzing: panic, abort, CPU and peak-heap monitors over mutated packages and hostile arguments",
    "C17": "runtime monitoring: twin runs with and without the refused calls, compared by an offline checker",
    "C18": "fault injection at every file-system call of a save, with monitors on the target, the directory and the call log",
    "C19": "runtime monitoring: twin and chain runs compared by an offline checker",
    "C20": "runtime monitoring: solo, interleaved and multi-threaded runs of the same histories compared; ThreadSanitizer on library and standard library",
    "C21": "runtime monitoring: heap, descriptor, temporary-file and thread counters over repeated cycles",
    "C24": "AddressSanitizer on the exported C functions with a monitor over status codes, messages and effects",
    "C27": "runtime monitoring: twin runs on the same workbook laid out in two ways, compared by an offline checker",
    "C28": "runtime monitoring: exhaustive table check and saved files compared with a reference model",
}
NOTE = ("Finds violations on the executions it runs: seeded histories and packages judged by an independent reader and model. "
        "No claim beyond them; trusts CPython's zlib/zipfile/expat and the model in mon/model.py.")
checks = []
for p in sorted(suites.SUITES):
    s = suites.SUITES[p]
    checks.append({"property": p, "quick_cmd": "python3 mon/run.py " + p, "thorough_cmd": "env VERIF_TIER=thorough python3 mon/run.py " + p,
                   "technique": TECH.get(p, TECH["default"]), "level": s["level"], "level_note": s.get("note") or NOTE})
na = []
for i in range(1, 29):
    p = "C%02d" % i
    if p not in suites.SUITES:
        na.append({"property": p, "reason": "its monitor is not built yet"})
m = {"version": 1, "setup_cmd": "python3 mon/build.py debug", "checks": checks, "not_applicable": na,
     "notes": "Black-box checks: no hooks in /repo. "}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
