SPECIFICATION Spec
CONSTANTS Depth = 0 Coord = 4 IDepth = 5 RDepth = 3 MDepth = 5
INVARIANTS GEmit Meaning
CHECK_DEADLOCK FALSE
