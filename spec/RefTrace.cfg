SPECIFICATION TraceSpec
CONSTANTS NV = 4
 NL = 2
 Vals = {0}
 MaxObj = 100000
 MaxPath = 3
VIEW TraceView
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
