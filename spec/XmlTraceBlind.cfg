SPECIFICATION TraceSpec
CONSTANTS Observe = FALSE
VIEW TraceView
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
