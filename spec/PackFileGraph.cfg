SPECIFICATION Spec
CONSTANTS Enc = "native"
 Kinds = {"char", "short"}
 Vals = {1, 2}
 Raws = {0, 1, 2}
 MaxSize = 4
VIEW GraphView
INVARIANTS TypeOK
PROPERTIES ReadOnly Behind
ACTION_CONSTRAINT Emit
