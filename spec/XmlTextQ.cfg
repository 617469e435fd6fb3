SPECIFICATION Spec
CONSTANTS MaxForms = 2
 Emitting = TRUE
VIEW MCView
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
