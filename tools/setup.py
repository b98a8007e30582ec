#!/usr/bin/env python3
"""Setup: nothing is built ahead of time (every check rebuilds from /repo); only make sure the tools are there."""
import os
import shutil
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
bad = [t for t in ("clang++", "g++", "java", "objcopy") if not shutil.which(t)]
if not os.path.exists("/opt/veriftools/tla/tla2tools.jar"):
    bad.append("tla2tools.jar")
os.makedirs(V + "/evidence", exist_ok=True)
os.makedirs(V + "/out", exist_ok=True)
if bad:
    print("missing:", ", ".join(bad))
    sys.exit(1)
print("tools present")
