INIT MCInit
NEXT MCNext
CHECK_DEADLOCK TRUE
INVARIANTS Survives OldData InUse FirstOne
CONSTANTS
 Full = TRUE
