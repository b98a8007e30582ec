CONSTANTS THREADS = {1, 2, 3, 4}
CALLS = 2
INIT Init
NEXT Next
INVARIANTS FlagMeansDone
