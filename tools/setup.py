#!/usr/bin/env python3
"""Builds every monitor once, so that checks only rebuild what changed."""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.path.insert(0, os.path.join(V, "harness"))
import build as B
from harness.checks_table import CHECKS
bad = 0
for p, spec in CHECKS.items():
    for src, fl in spec["bins"] + ([("minimc", spec["program"])] if spec.get("program") else []):
        if src != "minimc" and not os.path.exists(f"{V}/harness/checks/{src}.cpp"):
            continue
        try:
            B.build(src, fl)
        except B.BuildError as e:
            print(e); bad = 1
sys.exit(bad)
