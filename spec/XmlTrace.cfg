SPECIFICATION TraceSpec
CONSTANTS Observe = TRUE
VIEW TraceView
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
