SPECIFICATION Spec
CONSTANTS
  N = 4
  P = 18
INVARIANTS NearestCell Partition Extents
CHECK_DEADLOCK FALSE
