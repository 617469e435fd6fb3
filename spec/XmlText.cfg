SPECIFICATION Spec
CONSTANTS MaxForms = 3
 Emitting = TRUE
VIEW MCView
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
