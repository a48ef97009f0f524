#!/usr/bin/env python3
"""Checks that the tools the framework needs are there; the checks build what they need themselves."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for t in ("clang++", "ld.lld"):
    if subprocess.call(["which", t], stdout=subprocess.DEVNULL): print("missing", t); sys.exit(1)
os.makedirs(os.path.join(V, "build"), exist_ok=True)
os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
print("ok")
