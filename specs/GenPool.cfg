SPECIFICATION Spec
CONSTANTS Chunk = 2
 MaxLive = 12
 Depth = 40
 Emit = TRUE
INVARIANTS Exclusive NoneLost EnumRight Out
CHECK_DEADLOCK FALSE
