SPECIFICATION Spec
INVARIANT Laws
CONSTANT N = 3
CHECK_DEADLOCK FALSE
