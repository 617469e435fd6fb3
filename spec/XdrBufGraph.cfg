SPECIFICATION Spec
CONSTANTS Enc = "xdr"
 Bufs = {"a", "b"}
 Kinds = {"char", "int"}
 Vals = {130}
 Raws = {0, 5}
 MaxSize = 8
 Flags = {1}
 Seeks = TRUE
VIEW GraphView
INVARIANTS TypeOK
PROPERTIES FailStutters Locality Conserve
ACTION_CONSTRAINT Emit
