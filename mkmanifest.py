#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and registry.py."""
import json, os
import registry
V = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    s = registry.SPECS.get(p["id"])
    if not s:
        na.append({"property": p["id"], "reason": registry.NOT_APPLICABLE.get(p["id"], "no check built yet")})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 check.py %s" % p["id"],
        "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
        "technique": s.get("technique", "deterministic simulation with fault injection: seeded search over schedules and fault plans of the real library under a simulated OpenMP/pthread/malloc run-time"),
        "level": "exploration",
        "level_note": s["note"],
    })
json.dump({
    "version": 1,
    "setup_cmd": "python3 build.py",
    "hooks": {"guard": "SLAT_SIMULATION", "enable": "no hooks are needed: the simulator replaces libgomp, pthread locks, malloc and file objects underneath the unchanged sources; nothing in /repo tests this define", "source_commits": []},
    "checks": checks,
    "not_applicable": na,
    "notes": "Every violation is minimised, replayed in a fresh process and written to failures/<property>-seed<S>-run<N>.replay; 'python3 check.py --replay FILE' reproduces it.",
}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
