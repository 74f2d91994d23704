#!/usr/bin/env python3
"""Checks that the toolchain is there and builds the plain monitors once (every check rebuilds what it needs anyway)."""
import json, os, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for t in ("cmake", "ninja", "g++"):
    if subprocess.call(["which", t], stdout=subprocess.DEVNULL) != 0:
        print("missing tool", t); sys.exit(1)
cfg = json.load(open(os.path.join(H, "harness", "checks.json")))
first = sorted(cfg)[0]
sys.exit(subprocess.call([sys.executable, os.path.join(H, "run.py"), first, "--cases", "64", "--no-evidence"], cwd=H))
