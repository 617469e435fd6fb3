SPECIFICATION Spec
CONSTANTS Max = 4
Vals = {0, 2}
Deep = FALSE
VIEW State
INVARIANTS Consistent Mutual Unambiguous
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
