SPECIFICATION Spec
CONSTANTS
 Kind = "E"
 NN = 4
 WithLoops = FALSE
 MaxE = 4
INVARIANTS Metric Backward Components Blocks_ Cores Triangles_ Between Flows Weights Ranks Modularity Effective
CHECK_DEADLOCK FALSE
