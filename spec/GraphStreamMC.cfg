SPECIFICATION Spec
CONSTANTS MaxN = 3
 NL = 2
 Limits = {0, 1, 2, 3, 4, 500}
 Emitting = TRUE
INVARIANT AlgorithmCorrect
VIEW MCView
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
