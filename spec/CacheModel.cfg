CONSTANTS NMAX = 4
B = 6
INIT Init
NEXT Next
INVARIANTS Distinct Found Bounded RefMeans Spared Gap
CHECK_DEADLOCK FALSE
