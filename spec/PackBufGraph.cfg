SPECIFICATION Spec
CONSTANTS Enc = "native"
 Bufs = {"a", "b"}
 Kinds = {"char"}
 Vals = {1, 2}
 Raws = {0, 1, 2}
 MaxSize = 2
 Flags = {1}
 Seeks = TRUE
VIEW GraphView
INVARIANTS TypeOK
PROPERTIES FailStutters Locality Conserve
ACTION_CONSTRAINT Emit
