INIT LInit
NEXT LNext
CHECK_DEADLOCK TRUE
INVARIANTS Back Current
CONSTANTS
 Sfxs = {""}
 Fields2 = FALSE
 Variants2 = FALSE
 Rounds = 3
