SPECIFICATION Spec
CONSTANTS Alphabet = {91, 93, 9, 94, 124, 38, 33, 61, 95, 45, 39, 65}
 MaxLen = 5
INVARIANT Laws
CHECK_DEADLOCK FALSE
