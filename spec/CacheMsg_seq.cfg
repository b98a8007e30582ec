CONSTANTS PROCS = 2
DOMS = 1
THR = 1
SLOTS = 2
BLOCKS = 3
DIR = 1
OPS = 3
TRIES = 2
SYNC = FALSE
OPSEQ = TRUE
INIT Init
NEXT Next
INVARIANTS Directory
