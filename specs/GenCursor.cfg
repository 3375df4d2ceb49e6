SPECIFICATION Spec
CONSTANTS MaxV = 3  Gen = TRUE Depth = 16
INVARIANTS InvPos InvNoLoss Emit
CHECK_DEADLOCK FALSE
