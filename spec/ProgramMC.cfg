SPECIFICATION Spec
VIEW State
INVARIANTS TypeOK InOrder
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
