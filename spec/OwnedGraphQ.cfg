SPECIFICATION Spec
CONSTANTS Kind = "graph"
 NB = 1
 NX = 1
 MaxObj = 2
 MaxLen = 2
 Shapes = "graph"
 Emitting = TRUE
INVARIANT Ownership
PROPERTY Stable
VIEW MCView
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
