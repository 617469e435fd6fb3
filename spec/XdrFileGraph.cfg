SPECIFICATION Spec
CONSTANTS Enc = "xdr"
 Kinds = {"char", "double"}
 Vals = {1, 130}
 Raws = {0, 5}
 MaxSize = 8
VIEW GraphView
INVARIANTS TypeOK
PROPERTIES ReadOnly Behind
ACTION_CONSTRAINT Emit
