CONSTANTS THREADS = {1, 2, 3}
N = 1
B = 2
SPREAD = 0
OPS = 2
INIT Init
NEXT NextT
INVARIANTS Exclusive Agree
