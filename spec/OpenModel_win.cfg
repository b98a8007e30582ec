CONSTANTS
  R = 2
  T = 2
  D = 2
  Levels = 1
  Prog <- FullWin
  LoseOne = FALSE
SPECIFICATION Spec
INVARIANTS Same Together OneMaster Ids Zero NoStop
PROPERTY Ends
CHECK_DEADLOCK FALSE
