SPECIFICATION Spec
CONSTANTS Depth = 6 QDepth = 5
INVARIANTS GEmit Law
CHECK_DEADLOCK FALSE
