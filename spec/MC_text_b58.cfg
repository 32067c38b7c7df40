INIT MCInit
NEXT MCNext
CHECK_DEADLOCK FALSE
INVARIANTS Ranged Reparse Canonical JsonInt B58Law
CONSTANTS
 Group = "b58"
 More = 0
