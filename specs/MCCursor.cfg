SPECIFICATION Spec
CONSTANTS MaxV = 1  Gen = FALSE Depth = 7
VIEW Hide
INVARIANTS InvPos InvNoLoss InvSorted
CHECK_DEADLOCK FALSE
