#!/usr/bin/env python3
"""Writes tools/meta.json: per property the technique, level, notes; then MANIFEST.json."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "contract-based deductive verification of the real Go code (govc: SSA of the working tree to SMT), with a bounded run of the real code for replay and for what no contract covers"
SCEN = "a bounded stand-in runs the built bab on generated Babfiles against an executable reading of the rules"
M = {}
def prop(pid, proved, bounded, assume=(), level="proof"):
    M[pid] = {"technique": TECH, "level": level,
              "note": "Proved: %s. Bounded, not counted as proved: %s." % (proved, bounded),
              "covers": "Contracts: %s. Bounded stand-in: %s." % (proved, bounded), "assumptions": list(assume)}
LIB = ["models of Go's standard library (strings, regexp by uninterpreted match functions, os, filepath, exec.Cmd field layout) are trusted",
       "panics of library code, data races between goroutines, memory and integer overflow are outside the contracts", "a run item is a non-nil value of one of the five item kinds (only the parser makes them)"]
exec(open(os.path.join(V, "tools", "props_meta.py")).read())
json.dump(M, open(os.path.join(V, "tools", "meta.json"), "w"), indent=1)
subprocess.run(["python3", os.path.join(V, "tools", "mkmanifest.py")], check=True)
