SPECIFICATION Spec
CONSTANTS Enc = "xdr"
 Bufs = {"a"}
 Kinds = {"char", "int"}
 Vals = {1, 130}
 Raws = {0, 1, 5}
 MaxSize = 12
 Flags = {}
 Seeks = FALSE
CONSTRAINT Short12
INVARIANTS TypeOK Fifo NoOverrun
PROPERTIES FailStutters
