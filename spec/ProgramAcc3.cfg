SPECIFICATION MCSpec
CONSTANT Depth = 3
VIEW State
INVARIANTS TypeOK Respected Everything
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
