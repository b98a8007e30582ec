CONSTANTS PROCS = 2
DOMS = 2
THR = 1
SLOTS = 1
BLOCKS = 2
DIR = 2
OPS = 2
SERIAL = FALSE
OPSEQ = TRUE
INIT Init
NEXT Next
INVARIANTS Directory OneBlock
