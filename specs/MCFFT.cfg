INIT Init
NEXT Next
CONSTANTS N = 4 M = 1
INVARIANTS Commutes CorrIsConv Mass CorrZero Theorem
CHECK_DEADLOCK FALSE
