INIT MCInit
NEXT MCNext
CHECK_DEADLOCK TRUE
INVARIANTS Holes Back Cuts Failing
CONSTANTS
 Kinds = {1, 2, 3, 4, 5, 6, 7, 8, 9}
