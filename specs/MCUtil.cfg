SPECIFICATION Spec
CONSTANT N = 5
INVARIANTS RoundTrip Clean Num Json JCut Http
CHECK_DEADLOCK FALSE
