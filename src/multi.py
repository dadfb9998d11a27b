#!/usr/bin/env python3
"""Runs several builds of one check after the other.

  multi.py ID NAME=EXE [NAME=EXE ...] -- [options of the check]
"""
import json
import os
import subprocess
import sys

i = sys.argv.index("--")
PID, EXES, ARGS = sys.argv[1], [a.split("=", 1) for a in sys.argv[2:i]], sys.argv[i + 1:]


def main():
    ev_path = ARGS[ARGS.index("--evidence") + 1] if "--evidence" in ARGS else None
    merged = None
    for name, exe in EXES:
        print("build: " + name)
        sys.stdout.flush()
        rc = subprocess.run([exe] + ARGS).returncode
        if rc != 0:
            return rc
        if not ev_path or not os.path.exists(ev_path) or "--replay" in ARGS:
            continue
        ev = json.load(open(ev_path))
        if merged is None:
            merged = ev
        else:
            a, b = merged["coverage"], ev["coverage"]
            a["evaluations"] += b["evaluations"]
            a["distinct_nontrivial"] += b["distinct_nontrivial"]
            merged["wall_s"] += ev["wall_s"]
            a[name] = {k: b[k] for k in ("evaluations", "distinct_nontrivial", "cases")}
    if merged:
        json.dump(merged, open(ev_path, "w"), indent=1)
    return 0


sys.exit(main())
