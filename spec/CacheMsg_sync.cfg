CONSTANTS PROCS = 2
DOMS = 1
THR = 2
SLOTS = 1
BLOCKS = 2
DIR = 2
OPS = 1
TRIES = 2
SYNC = TRUE
OPSEQ = FALSE
INIT Init
NEXT Next
INVARIANTS Directory
