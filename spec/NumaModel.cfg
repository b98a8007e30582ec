CONSTANTS N = 3
NODES = {4, 7}
TIMES = 2
INIT Init
NEXT Next
