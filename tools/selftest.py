#!/usr/bin/env python3
"""Self-test of the simulated MPI, barriers and semaphores: an ordinary MPI program that checks its own results,
under many schedules.  Not part of any check; run it after a change to harness/host."""
import collections, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "checks"))
import vlib
c = vlib.Check("selftest")
lib = c.build([dict(name="st", driver="u_selftest.cpp", sources=[])])
jobs = [({"R": 3, "seed": i + 1, "pol": i % 2, "pp": [50, 400][i % 2], "pm": 100, "rmalazy": [0, 500, 1000][i % 3], "eager": i % 3, "msgdelay": [0, 300][i % 2], "budget": 300000}, "x") for i in range(2000)]
res = c.run(lib["st"], jobs)
print(collections.Counter(x["verdict"] for x in res))
print(collections.Counter(str(e) for x in res for e in x["ev"]))
