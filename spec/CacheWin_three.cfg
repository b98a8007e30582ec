CONSTANTS PROCS = 3
DOMS = 1
THR = 1
SLOTS = 1
BLOCKS = 2
DIR = 2
OPS = 2
SERIAL = FALSE
OPSEQ = FALSE
INIT Init
NEXT Next
INVARIANTS Directory OneBlock
