SPECIFICATION Spec
CONSTANTS Kinds = {"M", "A"}  MaxId = 1  MaxE = 2  Gen = FALSE  Depth = 0
VIEW View
INVARIANTS InvNodes InvEdges InvLists InvCount InvFree InvAttr InvMx InvHand
CHECK_DEADLOCK FALSE
