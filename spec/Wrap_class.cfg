SPECIFICATION Spec
CONSTANTS Kind = "class"
 Neg = 0
 Hi = 3
INVARIANT TypeOK
PROPERTY Pure
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
