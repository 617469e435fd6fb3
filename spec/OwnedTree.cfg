SPECIFICATION Spec
CONSTANTS Kind = "tree"
 NB = 1
 NX = 1
 MaxObj = 3
 MaxLen = 3
 Shapes = "tree"
 Emitting = TRUE
INVARIANT Ownership
PROPERTY Stable
VIEW MCView
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
