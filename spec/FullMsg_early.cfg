CONSTANTS
  R = 2
  D = 2
  OPS = 1
  SYNC = TRUE
  EAGER = FALSE
  LOCK = TRUE
  WAITLOAD = FALSE
  CLOSEBAR = TRUE
SPECIFICATION Spec
INVARIANTS Right Clean NoStop
PROPERTY Ends
CHECK_DEADLOCK FALSE
