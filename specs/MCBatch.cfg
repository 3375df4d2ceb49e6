SPECIFICATION Spec
CONSTANTS M = 3
 MaxLen = 10
INVARIANTS Possible Complete Apart Pages
CHECK_DEADLOCK FALSE
