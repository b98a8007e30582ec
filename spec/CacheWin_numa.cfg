CONSTANTS PROCS = 1
DOMS = 2
THR = 2
SLOTS = 1
BLOCKS = 2
DIR = 2
OPS = 1
SERIAL = TRUE
OPSEQ = FALSE
INIT Init
NEXT Next
INVARIANTS Directory OneBlock
