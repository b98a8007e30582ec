SPECIFICATION Spec
CONSTANTS
  R = 3
  T = 1
  D = 1
  N = 4
  CS = "1"
  SPREAD = "-1"
  TYPE = "FULL"
  MPI = "THREAD"
  NUMA = "ON"
  SEQ = TRUE
  MISSING = FALSE
  PRED = FALSE
VIEW View
INVARIANTS OpenCollective LoadedBeforeUse Even CacheSane DirSane DirComplete
PROPERTY Steps
CHECK_DEADLOCK FALSE
