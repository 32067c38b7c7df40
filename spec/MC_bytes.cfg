INIT MCInit
NEXT MCNext
CHECK_DEADLOCK TRUE
INVARIANTS RoundTrip Fresh Truncation PrefixFree Sizes Agree Tight Delimited
CONSTANTS
 Depth = 1
 Mode = "bytes"
 Exts = FALSE
 Big = FALSE
