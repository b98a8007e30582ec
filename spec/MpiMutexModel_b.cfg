CONSTANTS RANKS = 3
THR = 1
PLACES = {1, 2}
TIMES = 2
OBJ <- Obj2
INIT Init
NEXT Next
INVARIANTS Clean
