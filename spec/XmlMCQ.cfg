SPECIFICATION Spec
CONSTANTS Observe = FALSE
 MaxKids = 2
 Emitting = TRUE
VIEW MCView
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
