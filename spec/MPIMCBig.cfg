SPECIFICATION MCSpec
CONSTANTS Procs = 2
  MaxOps = 3
  Tags = {0, 1}
  Mode = "point"
INVARIANT Once
INVARIANT Order
INVARIANT Live
PROPERTY Whole
VIEW MCView
CHECK_DEADLOCK FALSE
