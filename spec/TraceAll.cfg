INIT TInit
NEXT ANext
VIEW TView
CHECK_DEADLOCK FALSE
