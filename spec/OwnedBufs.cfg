SPECIFICATION Spec
CONSTANTS Kind = "tree"
 NB = 2
 NX = 1
 MaxObj = 2
 MaxLen = 2
 Shapes = "one"
 Emitting = TRUE
INVARIANT Ownership
PROPERTY Stable
VIEW MCView
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
