#!/usr/bin/env python3
"""run.py <property id> [--thorough]: runs the check of one property (see MANIFEST.json)."""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import core  # noqa: E402

if __name__ == "__main__":
    pid = sys.argv[1]
    mod = importlib.import_module("checks." + pid.lower())
    core.main(pid, mod.run, getattr(mod, "LEVEL", "model_checking"))
