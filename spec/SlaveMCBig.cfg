SPECIFICATION MCSpec
CONSTANTS Procs = 4
  MaxJobs = 4
INVARIANT IdleIff
INVARIANT OneEach
INVARIANT OnceRun
INVARIANT Shut
INVARIANT Live
VIEW MCView
CHECK_DEADLOCK FALSE
