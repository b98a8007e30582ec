SPECIFICATION Spec
CONSTANTS
  R = 1
  T = 2
  D = 2
  N = 3
  CS = "1"
  SPREAD = "-1"
  TYPE = "CACHE"
  MPI = "WINDOW"
  NUMA = "ON"
  SEQ = FALSE
  MISSING = FALSE
  PRED = TRUE
VIEW View
INVARIANTS OpenCollective LoadedBeforeUse Even CacheSane DirSane DirComplete
PROPERTY Steps
CHECK_DEADLOCK FALSE
