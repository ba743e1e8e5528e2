#!/usr/bin/env python3
"""Builds every scenario binary from /repo's current tree (checks rebuild whatever has changed)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import simbuild
from units import UNITS, CHECKS
used = dict.fromkeys(s[0] for c in CHECKS.values() for s in c["scen"])
for u in used:
    try: print("built", simbuild.build(UNITS[u]), flush=True)
    except RuntimeError as e: print(str(e)[:4000]); sys.exit(1)
