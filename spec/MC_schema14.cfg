INIT MCInit
NEXT MCNext
CHECK_DEADLOCK TRUE
INVARIANTS Inverts Empty EmptyE RoundTrip SoundMeansInhabited
CONSTANTS
 Sfxs = {""}
 Fields2 = TRUE
 Variants2 = TRUE
