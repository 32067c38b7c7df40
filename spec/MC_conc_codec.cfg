INIT MCInit
NEXT MCNext
CHECK_DEADLOCK TRUE
INVARIANTS Isolated Complete
CONSTANTS
 Procs = 2
 Calls = 1
 Pieces = 3
 Shared = FALSE
 Plan = "codec"
