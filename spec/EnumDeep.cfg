SPECIFICATION Spec
CONSTANTS Max = 3
Vals = {0, 2}
Deep = TRUE
INVARIANTS Consistent Mutual Unambiguous RoundTrips AfterSet
CHECK_DEADLOCK FALSE
