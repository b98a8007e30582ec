SPECIFICATION Spec
CONSTANTS
  R = 2
  T = 2
  D = 2
  N = 2
  CS = "1"
  SPREAD = "-1"
  TYPE = "PASS_THROUGH"
  MPI = "WINDOW"
  NUMA = "ON"
  SEQ = FALSE
  MISSING = FALSE
  PRED = FALSE
VIEW View
INVARIANTS OpenCollective LoadedBeforeUse Even CacheSane DirSane DirComplete
PROPERTY Steps
CHECK_DEADLOCK FALSE
