SPECIFICATION Spec
CONSTANTS Depth = 8 QDepth = 7
INVARIANTS GEmit Law
CHECK_DEADLOCK FALSE
