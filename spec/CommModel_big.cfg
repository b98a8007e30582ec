CONSTANTS NR = 3
PROG <- P3
TAG0 <- T3
INIT Init
NEXT Next
INVARIANTS Clean
