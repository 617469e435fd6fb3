SPECIFICATION Spec
CONSTANTS MaxN = 4
 NL = 2
 Limits = {0, 1, 2, 3, 4, 5, 6}
 Emitting = FALSE
INVARIANT AlgorithmCorrect
VIEW MCView
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
