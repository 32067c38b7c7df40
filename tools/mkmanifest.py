#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every property with a profile, the rest under not_applicable."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(V, "lib"))
import profiles
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in profiles.PROFILES:
        pr = profiles.PROFILES[i]
        mods = ", ".join(m["module"] for m in pr.get("mc", []))
        note = ("TLC explores the TLA+ machine within small constants (%s) and every behaviour it emits is replayed on the real code; " % mods if mods else "") + \
               "seeded random sessions run on the real code and TLC validates every recorded call against the same TLA+ machine (exact bytes, values, positions, errors). Bounded: values and sessions beyond those generated are not covered."
        checks.append({"property": i, "quick_cmd": "VERIF_TIER=quick python3 lib/check.py %s" % i, "thorough_cmd": "VERIF_TIER=thorough python3 lib/check.py %s" % i,
                       "technique": "TLA+ machine: TLC model checking with replay, and TLC trace validation of recorded real executions" if mods else "TLA+ machine: TLC trace validation of recorded real executions",
                       "level": "model_checking", "level_note": note})
    else:
        na.append({"property": i, "reason": "specification module not built yet"})
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks}
if na: m["not_applicable"] = na
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
