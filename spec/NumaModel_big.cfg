CONSTANTS N = 4
NODES = {2, 4, 7}
TIMES = 1
INIT Init
NEXT Next
