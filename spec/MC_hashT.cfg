INIT MCInit
NEXT MCNext
CHECK_DEADLOCK FALSE
CONSTRAINT Sym
INVARIANTS Refines Buffered Padded
CONSTANTS
 Lens = {0, 1, 8, 55, 56, 63, 64, 65, 127}
 Steps = 4
