SPECIFICATION TraceSpec
CONSTANTS Enc = "native"
 Bufs = {"a", "b", "c"}
 Kinds = {}
 Vals = {}
 Raws = {}
 MaxSize = 0
 Flags = {}
 Seeks = TRUE
VIEW TraceView
POSTCONDITION TraceAccepted
