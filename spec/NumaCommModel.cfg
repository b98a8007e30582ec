CONSTANTS D = 3
PROG <- Program
INIT Init
NEXT Next
INVARIANTS SameComm Distinct Values Parts InOrder
