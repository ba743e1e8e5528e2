#!/usr/bin/env python3
"""Writes MANIFEST.json from units.py and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from units import CHECKS, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
m = dict(version=1, setup_cmd="python3 tools/setup.py",
    checks=[dict(property=p, quick_cmd=f"python3 tools/check.py {p}", thorough_cmd=f"VERIF_TIER=thorough python3 tools/check.py {p}",
        technique="deterministic simulation with fault injection (seeded schedule, clock and fault search over the real code)", level="exploration",
        level_note=f"Seeded sampling of schedules, workloads and faults; every reported violation is repeated and replayed. Real code: {CHECKS[p]['real']}. Simulated: {CHECKS[p]['stub']}.") for p in props if p in CHECKS],
    not_applicable=[dict(property=p, reason=NOT_APPLICABLE.get(p, "no check built for it yet")) for p in props if p not in CHECKS],
    notes="No hooks in /repo: every seam is outside the code (interposed pthread/clock/heap/socket/file calls and the compiler's memory-access instrumentation), so the shipped sources are simulated as they are.")
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1); print(len(m["checks"]), "checks", len(m["not_applicable"]), "not applicable")
