SPECIFICATION Spec
CONSTANTS
  R = 2
  T = 1
  D = 1
  N = 3
  CS = "1"
  SPREAD = "-1"
  TYPE = "CACHE"
  MPI = "WINDOW"
  NUMA = "ON"
  SEQ = TRUE
  MISSING = FALSE
  PRED = FALSE
VIEW View
INVARIANTS OpenCollective LoadedBeforeUse Even CacheSane DirSane DirComplete
PROPERTY Steps
CHECK_DEADLOCK FALSE
