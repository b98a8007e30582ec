CONSTANTS N = 4
ROUNDS = 3
LATE = {1, 2}
SPURIOUS = 3
INIT Init
NEXT Next
INVARIANTS Counts Together
