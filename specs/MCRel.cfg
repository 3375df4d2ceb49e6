SPECIFICATION Spec
CONSTANTS V = 2  C = 2  M = 2
INVARIANTS JoinIsProduct NestedIsProduct OuterIsJoinPlusMinus Partition UnionAdds GroupKeeps LimitSlices
CHECK_DEADLOCK FALSE
