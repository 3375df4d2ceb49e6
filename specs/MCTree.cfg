SPECIFICATION Spec
CONSTANTS N = 5
 Cap = 4
 MaxLen = 6
INVARIANTS NodeHolds Apart BothWays
CHECK_DEADLOCK FALSE
