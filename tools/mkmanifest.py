#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "contract-based deductive verification: weakest-precondition style symbolic execution of the real Go source per function against contracts, array/bit-vector normal forms plus SMT"
NOTE = {}
exec(open(os.path.join(HERE, "tools", "notes.py")).read())
m = {"version": 1, "setup_cmd": "cd engine && GOFLAGS=-mod=vendor GOPROXY=off go build -o govc .",
     "checks": [{"property": p, "quick_cmd": "python3 check.py %s" % p, "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % p,
                 "technique": T, "level": "proof", "level_note": NOTE[p]} for p in sorted(NOTE)],
     "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NA.items())]}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
