SPECIFICATION Spec
CONSTANTS Depth = 2 MaxN = 4
INVARIANTS Emit FoldLaw ActLaw SearchLaw
CHECK_DEADLOCK FALSE
