SPECIFICATION TraceSpec
CONSTANTS Pad = 2
VIEW TraceView
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
