SPECIFICATION Spec
CONSTANTS Depth = 3 UDepth = 4 N = 3
INVARIANTS GEmit Canonical
PROPERTIES Persist
CHECK_DEADLOCK FALSE
