SPECIFICATION Spec
CONSTANTS N = 5  Gen = TRUE Depth = 16
INVARIANTS InvTruthful InvKept Emit
CHECK_DEADLOCK FALSE
