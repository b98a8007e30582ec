CONSTANTS RANKS = 2
THR = 2
PLACES = {1, 2}
TIMES = 2
OBJ <- ObjSep
INIT Init
NEXT Next
INVARIANTS Clean
