SPECIFICATION TraceSpec
CONSTANTS Names = 7
  Classes = 5
  Facs = 3
VIEW TraceView
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
