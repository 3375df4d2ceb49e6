SPECIFICATION Spec
CONSTANTS
  Graphs = {"triangle", "tail"}
  Consts = 2
  MaxTriples = 2
  Lean = TRUE
INVARIANTS Computes ClaimsHold
CHECK_DEADLOCK FALSE
