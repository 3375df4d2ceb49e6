SPECIFICATION Spec
CONSTANTS
  Graphs = {"chain", "filt", "opt", "loop", "optfilt", "minus", "optminus"}
  Consts = 2
  MaxTriples = 3
  Lean = TRUE
INVARIANTS Computes ClaimsHold
CHECK_DEADLOCK FALSE
