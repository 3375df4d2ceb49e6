CONSTANTS MaxDB = 2
INIT Init
NEXT Next
INVARIANTS Commutes Associates Distributes Neutral Specialises Pushdown Idempotent Conjunction Outer Subtract Decides
CHECK_DEADLOCK FALSE
