SPECIFICATION Spec
CONSTANTS Gen = TRUE Depth = 44 MaxOpen = 6
INVARIANTS WellTyped Emit
CHECK_DEADLOCK FALSE
