SPECIFICATION Spec
CONSTANTS
  R = 1
  T = 3
  D = 3
  N = 3
  CS = "2"
  SPREAD = "0"
  TYPE = "CACHE"
  MPI = "WINDOW"
  NUMA = "ON"
  SEQ = TRUE
  MISSING = FALSE
  PRED = FALSE
VIEW View
INVARIANTS OpenCollective LoadedBeforeUse Even CacheSane DirSane DirComplete
PROPERTY Steps
CHECK_DEADLOCK FALSE
