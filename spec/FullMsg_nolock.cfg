CONSTANTS
  R = 2
  D = 2
  OPS = 1
  SYNC = FALSE
  EAGER = TRUE
  LOCK = FALSE
  WAITLOAD = TRUE
  CLOSEBAR = TRUE
SPECIFICATION Spec
INVARIANTS Right Clean NoStop
PROPERTY Ends
CHECK_DEADLOCK FALSE
