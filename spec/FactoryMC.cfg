SPECIFICATION MCSpec
CONSTANTS Names = 3
  Classes = 2
  Facs = 2
  MaxMade = 1
PROPERTY Bound
PROPERTY Made
VIEW MCView
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
