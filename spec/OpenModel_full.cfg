CONSTANTS
  R = 1
  T = 3
  D = 2
  Levels = 2
  Prog <- Full
  LoseOne = FALSE
SPECIFICATION Spec
INVARIANTS Same Together OneMaster Ids Zero NoStop
PROPERTY Ends
CHECK_DEADLOCK FALSE
