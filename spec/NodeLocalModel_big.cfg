CONSTANTS
  R = 4
  Names = {1, 2, 3}
  Hashes = {1, 2, 3}
SPECIFICATION Spec
INVARIANTS Correct Numbered NoStop
CHECK_DEADLOCK FALSE
