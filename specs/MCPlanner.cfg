SPECIFICATION Spec
CONSTANTS
  Graphs = {"chain", "star", "twice", "cross", "loop", "distinct", "filt", "opt", "optcross", "optfilt", "minus"}
  Consts = 2
  MaxTriples = 2
  Lean = TRUE
INVARIANTS Computes ClaimsHold
CHECK_DEADLOCK FALSE
