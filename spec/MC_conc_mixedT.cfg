INIT MCInit
NEXT MCNext
CHECK_DEADLOCK TRUE
INVARIANTS Isolated Complete
CONSTANTS
 Procs = 4
 Calls = 1
 Pieces = 1
 Shared = FALSE
 Plan = "mixed"
