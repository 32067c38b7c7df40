INIT MCInit
NEXT MCNext
CHECK_DEADLOCK TRUE
INVARIANTS Answered
CONSTANTS
 Group = "parts"
 Step = 1
