CONSTANTS N = 5
ROUNDS = 4
LATE = {1, 4}
SPURIOUS = 4
INIT Init
NEXT Next
INVARIANTS Counts Together
