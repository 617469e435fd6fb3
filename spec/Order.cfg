SPECIFICATION Spec
CONSTANTS Contents <- SmallContents
 MaxItems = 4
VIEW View
INVARIANTS Sorted Distinct Same Total
