SPECIFICATION MCSpec
CONSTANTS Pad = 2
  MaxRank = 4
  MaxDim = 3
INVARIANT OneToOne
INVARIANT Each
INVARIANT Apart
INVARIANT Guard
PROPERTY OneCell
VIEW MCView
CHECK_DEADLOCK FALSE
