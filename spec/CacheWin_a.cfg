CONSTANTS PROCS = 2
DOMS = 1
THR = 2
SLOTS = 1
BLOCKS = 2
DIR = 1
OPS = 2
SERIAL = FALSE
OPSEQ = FALSE
INIT Init
NEXT Next
INVARIANTS Directory OneBlock
