CONSTANTS NR = 2
PROG <- P2
TAG0 <- T2
INIT Init
NEXT Next
INVARIANTS Clean
