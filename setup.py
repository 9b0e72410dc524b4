#!/usr/bin/env python3
"""Builds the engine and warms the dependency builds of the harness."""
import sys
import run
try:
    run.build_engine()
    run.lockfile()
    import os
    os.makedirs(run.B, exist_ok=True)
    run.build_ir("C01", "quick")
    run.build_replay("C01", "quick")
except run.Err as e:
    print("ERROR:", e)
    sys.exit(2)
