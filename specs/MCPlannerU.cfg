SPECIFICATION Spec
CONSTANTS
  Graphs = {"uni", "unival", "optmid", "optminus"}
  Consts = 2
  MaxTriples = 2
  Lean = TRUE
INVARIANTS Computes ClaimsHold
CHECK_DEADLOCK FALSE
