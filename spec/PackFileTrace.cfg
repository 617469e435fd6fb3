SPECIFICATION TraceSpec
CONSTANTS Enc = "native"
 Kinds = {}
 Vals = {}
 Raws = {}
 MaxSize = 0
VIEW TraceView
POSTCONDITION TraceAccepted
