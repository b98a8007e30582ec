CONSTANTS
  R = 3
  D = 1
  OPS = 2
  SYNC = TRUE
  EAGER = FALSE
  LOCK = TRUE
  WAITLOAD = TRUE
  CLOSEBAR = TRUE
SPECIFICATION Spec
INVARIANTS Right Clean NoStop
PROPERTY Ends
CHECK_DEADLOCK FALSE
