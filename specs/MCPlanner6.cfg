SPECIFICATION Spec
CONSTANTS
  Graphs = {"chain", "star", "twice", "cross", "loop", "distinct", "filt", "opt", "optcross", "optfilt", "minus", "unival"}
  Consts = 2
  MaxTriples = 2
  Lean = FALSE
INVARIANTS Computes ClaimsHold
CHECK_DEADLOCK FALSE
