INIT MCInit
NEXT MCNext
CHECK_DEADLOCK FALSE
INVARIANTS Ranged Reparse Canonical JsonInt B58Law
CONSTANTS
 Group = "asset"
 More = 0
