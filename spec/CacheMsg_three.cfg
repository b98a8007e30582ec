CONSTANTS PROCS = 3
DOMS = 1
THR = 1
SLOTS = 1
BLOCKS = 2
DIR = 2
OPS = 2
TRIES = 2
SYNC = FALSE
OPSEQ = FALSE
INIT Init
NEXT Next
INVARIANTS Directory
