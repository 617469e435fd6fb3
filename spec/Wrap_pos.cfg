SPECIFICATION Spec
CONSTANTS Kind = "num"
 Neg = 0
 Hi = 4
INVARIANT TypeOK
PROPERTY Pure
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
