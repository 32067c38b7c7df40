INIT MCInit
NEXT MCNext
CHECK_DEADLOCK TRUE
INVARIANTS Answered
CONSTANTS
 Group = "checked"
 Step = 1
