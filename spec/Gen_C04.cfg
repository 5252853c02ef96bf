SPECIFICATION Spec
CONSTANTS Depth = 2 N = 3
INVARIANTS Emit RevLaw RotLaw CutLaw
CHECK_DEADLOCK FALSE
