INIT MCInit
NEXT MCNext
CHECK_DEADLOCK TRUE
INVARIANTS Answered
CONSTANTS
 Group = "places"
 Step = 4
