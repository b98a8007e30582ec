CONSTANTS RANKS = 2
THR = 2
PLACES = {1}
TIMES = 2
OBJ <- Obj2
INIT Init
NEXT Next
INVARIANTS Clean
