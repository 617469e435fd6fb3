SPECIFICATION Spec
CONSTANTS NV = 2
 NL = 1
 Vals = {0, 1}
 MaxObj = 3
 MaxPath = 1
INVARIANT NoDangling
INVARIANT AliveIffReferred
INVARIANT Normal
PROPERTY KeepValue
VIEW MCView
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
