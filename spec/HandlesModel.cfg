CONSTANTS
  Threads = {1, 2}
  MaxAdds = 4
  LockGet = TRUE
SPECIFICATION Spec
INVARIANTS Good Same
CHECK_DEADLOCK FALSE
