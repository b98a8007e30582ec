CONSTANTS THREADS = {1, 2, 3}
N = 2
B = 3
SPREAD = 1
OPS = 2
INIT Init
NEXT NextT
INVARIANTS Exclusive Agree
