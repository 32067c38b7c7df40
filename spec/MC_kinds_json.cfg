INIT MCInit
NEXT MCNext
CHECK_DEADLOCK TRUE
INVARIANTS Returns Refused Sized Minimal Normal
CONSTANTS
 Group = "json"
 More = FALSE
