CONSTANTS
  R = 3
  Names = {1, 2, 3}
  Hashes = {1, 2}
SPECIFICATION Spec
INVARIANTS Correct Numbered NoStop
PROPERTY Ends
CHECK_DEADLOCK FALSE
