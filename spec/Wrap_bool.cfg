SPECIFICATION Spec
CONSTANTS Kind = "bool"
 Neg = 0
 Hi = 1
INVARIANT TypeOK
PROPERTY Pure
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
