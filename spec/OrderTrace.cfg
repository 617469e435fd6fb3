SPECIFICATION TraceSpec
CONSTANTS Contents = {}
 MaxItems = 0
VIEW TraceView
POSTCONDITION TraceAccepted
