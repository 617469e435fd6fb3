SPECIFICATION Spec
CONSTANTS Kind = "ptr"
 Neg = 1
 Hi = 5
INVARIANT TypeOK
PROPERTY Pure
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
