SPECIFICATION Spec
CONSTANTS Gen = FALSE Depth = 7 MaxOpen = 5
INVARIANTS WellTyped Fold Same Cut Fresh ReadBack
CHECK_DEADLOCK FALSE
