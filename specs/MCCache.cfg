SPECIFICATION Spec
CONSTANTS N = 2  Gen = FALSE Depth = 8
VIEW View
INVARIANTS InvTruthful InvKept
CHECK_DEADLOCK FALSE
