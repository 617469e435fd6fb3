SPECIFICATION MCSpec
CONSTANTS Procs = 2
  MaxOps = 2
  Tags = {0}
  Mode = "point"
INVARIANT Once
INVARIANT Order
INVARIANT Live
PROPERTY Whole
VIEW MCView
CHECK_DEADLOCK FALSE
