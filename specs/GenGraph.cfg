SPECIFICATION Spec
CONSTANTS Kinds = {"U", "D", "M", "A", "V", "W", "N", "E"}  MaxId = 4  MaxE = 9  Gen = TRUE  Depth = 25
INVARIANTS Emit
CHECK_DEADLOCK FALSE
