SPECIFICATION Spec
CONSTANTS NW = 2
 NP = 3
 Emit = FALSE
INVARIANTS Inv Freed
PROPERTIES Once Ends
