SPECIFICATION Spec
CONSTANTS Alphabet = {97, 46, 60, 62, 61, 34, 92, 32, 63, 53, 35, 10}
 MaxLen = 5
INVARIANT Laws
CHECK_DEADLOCK FALSE
