SPECIFICATION Spec
CONSTANTS NW = 3
 NP = 3
 Emit = FALSE
INVARIANTS Inv Freed
PROPERTIES Once Ends
