SPECIFICATION Spec
CONSTANTS Kinds = {"U"}  MaxId = 3  MaxE = 0  Gen = FALSE  Depth = 0
VIEW View
INVARIANTS InvNodes InvEdges InvLists InvCount InvFree InvAttr InvMx InvHand
CHECK_DEADLOCK FALSE
