SPECIFICATION Spec
CONSTANTS Observe = FALSE
 MaxKids = 3
 Emitting = TRUE
VIEW MCView
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
