SPECIFICATION Spec
CONSTANTS MaxTokens = 3
 Emitting = TRUE
VIEW MCView
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
INVARIANT Balanced
