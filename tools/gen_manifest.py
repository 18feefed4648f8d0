#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry in check.py and properties.jsonl."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import check  # noqa: E402

NA = {
    "C22": "Rejection at compile time produces no execution that a monitor could observe: the guarantee is that no program exists. "
           "Deciding it would be static checking (compiling negative tests), which is not runtime monitoring.",
    "C23": "Natvis files are interpreted only by the Visual Studio debugger, which does not exist on Linux; there is no execution "
           "here in which the visualiser runs and could be monitored.",
}
props = [json.loads(line) for line in open(os.path.join(ROOT, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "checks": [],
    "not_applicable": [],
    "notes": "All checks compile harness/ together with the headers in /repo/include in a temporary directory and run the result. "
             "No hooks in /repo are needed: all instrumentation lives in payload types, manipulators, sanitizers and an assert() hook.",
}
for p in props:
    i = p["id"]
    if i in check.CHECKS:
        d = check.CHECKS[i]
        m["checks"].append({
            "property": i, "quick_cmd": "python3 check.py %s --tier quick" % i,
            "thorough_cmd": "python3 check.py %s --tier thorough" % i, "evidence_file": "evidence/%s.json" % i,
            "technique": d["technique"], "level": d["level"], "level_note": d["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "No check has been built for this property yet.")})
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
