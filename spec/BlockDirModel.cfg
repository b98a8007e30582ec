CONSTANTS HOLDERS = {0, 1, 2, 3, 4, 5}
HLEN = 6
INIT Init
NEXT Next
INVARIANTS Same Newest Lookups
CHECK_DEADLOCK FALSE
