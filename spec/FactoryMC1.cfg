SPECIFICATION MCSpec
CONSTANTS Names = 4
  Classes = 3
  Facs = 1
  MaxMade = 2
PROPERTY Bound
PROPERTY Made
VIEW MCView
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
