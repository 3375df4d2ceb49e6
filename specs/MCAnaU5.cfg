SPECIFICATION Spec
CONSTANTS
 Kind = "U"
 NN = 5
 WithLoops = FALSE
 MaxE = 16
INVARIANTS Metric Backward Components Blocks_ Cores Triangles_ Between Flows Weights Ranks Effective
CHECK_DEADLOCK FALSE
