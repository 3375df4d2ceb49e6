SPECIFICATION Spec
CONSTANTS NW = 2
 NP = 3
 Emit = TRUE
INVARIANTS Inv Freed Out
CHECK_DEADLOCK FALSE
