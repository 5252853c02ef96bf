SPECIFICATION Spec
CONSTANTS Depth = 2 MaxN = 6
INVARIANTS Emit FoldLaw ActLaw SearchLaw
CHECK_DEADLOCK FALSE
