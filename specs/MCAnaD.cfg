SPECIFICATION Spec
CONSTANTS
 Kind = "D"
 NN = 3
 WithLoops = TRUE
 MaxE = 16
INVARIANTS Metric Backward Components Blocks_ Cores Triangles_ Between Flows Weights Ranks Modularity Effective
CHECK_DEADLOCK FALSE
