SPECIFICATION Spec
CONSTANTS Depth = 4 N = 3
INVARIANTS Emit Acyclic EvertLaw PathLaw
CHECK_DEADLOCK FALSE
