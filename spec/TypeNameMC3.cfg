SPECIFICATION Spec
CONSTANTS Depth = 3
INVARIANT NonEmpty
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
