SPECIFICATION Spec
CONSTANTS Depth = 4 N = 4 WDepth = 3
INVARIANTS GEmit Canonical LogRefines Imposed
CHECK_DEADLOCK FALSE
