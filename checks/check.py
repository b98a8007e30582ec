#!/usr/bin/env python3
"""check.py <property>: one check (VERIF_TIER=quick|thorough, VERIF_SEED)."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
import grids
try:
    import units
    T = dict(grids.ALL, **units.ALL)
except ImportError:
    T = dict(grids.ALL)
if __name__ == "__main__":
    pid = sys.argv[1]
    vlib.main(pid, T[pid])
