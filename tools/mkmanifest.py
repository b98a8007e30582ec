#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the check tables."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/checks")
import grids
T = dict(grids.ALL)
try:
    import units
    T.update(units.ALL)
except ImportError:
    units = None
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
SIM = ("The real sources of /repo run unmodified on a simulated machine (simulated ranks, threads, MPI, netCDF file access, NUMA topology, "
       "seeded adversarial scheduling); every recorded trace must be a behaviour of the TLA+ specification (TLC trace validation). ")
TRUST = ("Trusted: the simulator's model of MPI/pthread/NUMA semantics (sequentially consistent interleavings), TLC, clang. "
         "Schedules and inputs are sampled, the design models are exhaustive within their constants.")
NOTE = {
    "C01": "Grid.tla (open, read, close, values of an abstract file); GridModel full1 exhaustively", "C02": "Grid.tla with processes; GridModel full2/full3",
    "C03": "Grid.tla for CACHE; GridModel cache1", "C04": "Grid.tla for CACHE over MPI; GridModel cacheR2/cacheR3/cacheW", "C05": "Grid.tla for PASS_THROUGH; GridModel pass/pass2",
    "C06": "Geometry.tla; GeoModel compares it with the declarative definition", "C07": "Geometry.tla and Grid.tla (Meta, Edge)", "C08": "Grid.tla (Read, AllLoaded) on every file access; GridModel full1-3",
    "C09": "Grid.tla (ToType, StoredAs, Answer)", "C10": "Geometry.tla (blocks), Grid.tla; GeoModel", "C11": "Grid.tla with levels", "C12": "Params.tla and Grid.tla (Config)",
    "C13": "Grid.tla (OpenCode)", "C14": "Grid.tla (OpenBegin, Open); GridModel", "C15": "Grid.tla (Fetch, Counters)", "C24": "Grid.tla (Fetch, Read)",
    "C28": "Grid.tla, the same for the three languages", "C29": "Grid.tla (NodeLocal); NodeLocalModel exhaustively", "C30": "Grid.tla (Stat)", "C31": "calls flagged by the simulator are events no specification accepts",
    "C32": "every trace must end with the verdict ok; liveness in the design models",
    "C16": "Clock.tla; CacheModel exhaustively", "C17": "Cache.tla; CacheExcl refines it", "C18": "Sync.tla; SyncModel refines it, liveness", "C19": "Sync.tla; OnceModel", "C20": "Numa.tla; NumaModel",
    "C21": "Numa.tla; NumaCommModel", "C22": "MpiMutex.tla; MpiMutexModel refines it, liveness", "C23": "BlockDir.tla; BlockDirModel", "C25": "CommThread.tla; CommModel refines it", "C26": "CommThread.tla; CommModel refines it",
    "C27": "Handles.tla; HandlesModel refines it",
}
NOTE.update(getattr(units, "NOTE", {}))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in T:
        checks.append({"property": i, "quick_cmd": "python3 checks/check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 checks/check.py " + i,
                       "technique": "TLA+ specification, TLC model checking and trace validation of the real code",
                       "level": "model_checking", "level_note": SIM + ("Specification: " + NOTE[i] + ". " if i in NOTE else "") + TRUST})
    else:
        na.append({"property": i, "reason": "no check built yet"})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
           "notes": "See DESIGN.md. No hooks in /repo are needed: the harness wraps libc/pthread/MPI/netCDF calls at link time and generates its own MPI header."},
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
