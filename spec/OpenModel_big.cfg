CONSTANTS
  R = 1
  T = 4
  D = 3
  Levels = 1
  Prog <- Full
  LoseOne = FALSE
SPECIFICATION Spec
INVARIANTS Same Together OneMaster Ids Zero NoStop
PROPERTY Ends
CHECK_DEADLOCK FALSE
