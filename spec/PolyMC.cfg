SPECIFICATION PolySpec
CONSTANTS Damage = FALSE
INVARIANT InStep
PROPERTY RoundTrip
PROPERTY SourceKept
PROPERTY Cloned
VIEW MCView
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
