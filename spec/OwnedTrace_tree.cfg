SPECIFICATION TraceSpec
CONSTANT Kind = "tree"
VIEW TraceView
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
