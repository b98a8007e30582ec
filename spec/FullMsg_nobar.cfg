CONSTANTS
  R = 2
  D = 1
  OPS = 1
  SYNC = TRUE
  EAGER = FALSE
  LOCK = TRUE
  WAITLOAD = TRUE
  CLOSEBAR = FALSE
SPECIFICATION Spec
INVARIANTS Right Clean NoStop
PROPERTY Ends
CHECK_DEADLOCK FALSE
