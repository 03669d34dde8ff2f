"""Writes MANIFEST.json from the plans in sim/profiles.py."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from sim import profiles  # noqa: E402

NA = {
    "C27": "a build-time scan of a package's files: a pure function of their contents, run once by PyInstaller (which is not installed here), "
    "with no schedule, clock, concurrency or recovery behaviour that a simulator could decide",
}
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in profiles.PLANS:
        checks.append({
            "property": p,
            "quick_cmd": f"./check {p} --tier quick",
            "thorough_cmd": f"./check {p} --tier thorough",
            "evidence_file": f"evidence/{p}.json",
            "technique": "deterministic simulation with fault injection: seeded search over programs, schedules and faults, compared with a reference model",
            "level": "exploration",
            "level_note": profiles.NOTES.get(p, profiles.NOTES["*"]),
        })
    else:
        na.append({"property": p, "reason": NA.get(p, "no check built yet")})
m = {
    "version": 1,
    "setup_cmd": "true",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: the existing seams (Renderer interface, asyncio event loop policy, time.perf_counter_ns) suffice.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
