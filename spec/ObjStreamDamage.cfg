SPECIFICATION MCSpec
CONSTANTS Damage = TRUE
INVARIANT InStep
INVARIANT MergeFix
PROPERTY RoundTrip
PROPERTY SourceKept
VIEW MCView
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
