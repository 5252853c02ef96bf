SPECIFICATION Spec
VIEW TraceView
CHECK_DEADLOCK TRUE
