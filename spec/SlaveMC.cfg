SPECIFICATION MCSpec
CONSTANTS Procs = 3
  MaxJobs = 3
INVARIANT IdleIff
INVARIANT OneEach
INVARIANT OnceRun
INVARIANT Shut
INVARIANT Live
VIEW MCView
CHECK_DEADLOCK FALSE
