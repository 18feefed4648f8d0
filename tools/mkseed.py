#!/usr/bin/env python3
"""mkseed.py SPEC.py: writes seeded/<id>/ from a list SEEDS of dicts (id, property, needs, breaks, edits, demo[, std, flags]).
edits: list of (old, new[, occurrence]) applied to include/tiny/optional.h. Development tool only."""
import json
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
H = "/repo/include/tiny/optional.h"
for s in ns["SEEDS"]:
    if only and s["id"] not in only:
        continue
    text = orig = open(H).read()
    for e in s["edits"]:
        old, new, occ = e[0], e[1], (e[2] if len(e) > 2 else 0)
        pos = -1
        for _ in range(occ + 1):
            pos = text.find(old, pos + 1)
            assert pos >= 0, (s["id"], "not found: " + old[:80])
        if len(e) <= 2:
            assert text.count(old) == 1, (s["id"], "ambiguous (%d): " % text.count(old) + old[:80])
        text = text[:pos] + new + text[pos + len(old):]
    d = os.path.join(VERIF, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    os.makedirs("/tmp/mkseed/a/include/tiny", exist_ok=True)
    os.makedirs("/tmp/mkseed/b/include/tiny", exist_ok=True)
    open("/tmp/mkseed/a/include/tiny/optional.h", "w").write(orig)
    open("/tmp/mkseed/b/include/tiny/optional.h", "w").write(text)
    diff = subprocess.run(["diff", "-u", "a/include/tiny/optional.h", "b/include/tiny/optional.h"], cwd="/tmp/mkseed",
                          stdout=subprocess.PIPE, text=True).stdout
    diff = "\n".join(l.split("\t")[0] if l.startswith(("--- ", "+++ ")) else l for l in diff.split("\n"))
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    if "demo" in s:
        open(os.path.join(d, "demo.cpp"), "w").write(s["demo"].lstrip("\n"))
        open(os.path.join(d, "demo.sh"), "w").write("""#!/bin/bash
# Compiles demo.cpp against include/ of the current directory and runs it: 0 if the guarantee holds.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
%s -I"$PWD/include" "$here/demo.cpp" -o "$tmp/demo" || exit 3
"$tmp/demo"
""" % s.get("cc", "g++ -std=c++20 -O1"))
    else:
        for name, content in s["files"].items():
            open(os.path.join(d, name), "w").write(content.lstrip("\n"))
