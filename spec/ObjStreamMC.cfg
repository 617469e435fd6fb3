SPECIFICATION MCSpec
CONSTANTS Damage = FALSE
INVARIANT InStep
INVARIANT MergeFix
PROPERTY RoundTrip
PROPERTY SourceKept
VIEW MCView
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
