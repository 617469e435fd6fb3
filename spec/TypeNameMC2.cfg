SPECIFICATION Spec
CONSTANTS Depth = 2
INVARIANT NonEmpty
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
