SPECIFICATION TraceSpec
CONSTANT Kind = "graph"
VIEW TraceView
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
