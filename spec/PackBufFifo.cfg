SPECIFICATION Spec
CONSTANTS Enc = "native"
 Bufs = {"a"}
 Kinds = {"char", "short"}
 Vals = {1, 2}
 Raws = {0, 1, 3}
 MaxSize = 5
 Flags = {}
 Seeks = FALSE
CONSTRAINT Short
INVARIANTS TypeOK Fifo NoOverrun
PROPERTIES FailStutters
