INIT Init
NEXT Next
CONSTRAINT Seen
POSTCONDITION Report
CHECK_DEADLOCK FALSE
