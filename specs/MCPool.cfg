SPECIFICATION Spec
CONSTANTS Chunk = 2
 MaxLive = 5
 Depth = 0
 Emit = FALSE
INVARIANTS Exclusive NoneLost EnumRight
CHECK_DEADLOCK FALSE
