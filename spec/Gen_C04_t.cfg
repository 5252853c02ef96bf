SPECIFICATION Spec
CONSTANTS Depth = 3 N = 3
INVARIANTS Emit RevLaw RotLaw CutLaw
CHECK_DEADLOCK FALSE
