SPECIFICATION Spec
CONSTANTS NV = 2
 NL = 2
 Vals = {0}
 MaxObj = 2
 MaxPath = 1
INVARIANT NoDangling
INVARIANT AliveIffReferred
INVARIANT Normal
PROPERTY KeepValue
VIEW MCView
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
