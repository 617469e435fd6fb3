SPECIFICATION MCSpec
CONSTANTS MaxBuf = 2
  MaxSum = 3
PROPERTY Once
PROPERTY AsCalled
INVARIANT Typed
VIEW MCView
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
