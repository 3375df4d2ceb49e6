SPECIFICATION Spec
CONSTANTS Kinds = {"U", "D"}  MaxId = 2  MaxE = 0  Gen = FALSE  Depth = 0
VIEW View
INVARIANTS InvNodes InvEdges InvLists InvCount InvFree InvAttr InvMx InvHand
CHECK_DEADLOCK FALSE
