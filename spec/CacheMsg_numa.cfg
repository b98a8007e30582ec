CONSTANTS PROCS = 2
DOMS = 2
THR = 1
SLOTS = 1
BLOCKS = 2
DIR = 2
OPS = 1
TRIES = 2
SYNC = FALSE
OPSEQ = FALSE
INIT Init
NEXT Next
INVARIANTS Directory
