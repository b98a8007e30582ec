CONSTANTS
  Threads = {1, 2, 3}
  MaxAdds = 6
  LockGet = TRUE
SPECIFICATION Spec
INVARIANTS Good Same
CHECK_DEADLOCK FALSE
