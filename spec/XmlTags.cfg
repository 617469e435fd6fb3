SPECIFICATION Spec
CONSTANTS MaxTokens = 5
 Emitting = TRUE
VIEW MCView
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
INVARIANT Balanced
