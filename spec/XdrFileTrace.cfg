SPECIFICATION TraceSpec
CONSTANTS Enc = "xdr"
 Kinds = {}
 Vals = {}
 Raws = {}
 MaxSize = 0
VIEW TraceView
POSTCONDITION TraceAccepted
