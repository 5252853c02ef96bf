SPECIFICATION Spec
CONSTANTS Depth = 0 Coord = 2 IDepth = 4 RDepth = 3 MDepth = 4
INVARIANTS GEmit Meaning
CHECK_DEADLOCK FALSE
