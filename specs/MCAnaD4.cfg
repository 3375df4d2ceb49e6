SPECIFICATION Spec
CONSTANTS
 Kind = "D"
 NN = 4
 WithLoops = FALSE
 MaxE = 16
INVARIANTS Metric Backward Components Blocks_ Cores Triangles_ Between Flows Weights Ranks Modularity Effective
CHECK_DEADLOCK FALSE
