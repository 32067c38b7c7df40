INIT MCInit
NEXT MCNext
CHECK_DEADLOCK TRUE
INVARIANTS Inverts Empty EmptyE RoundTrip SoundMeansInhabited
CONSTANTS
 Sfxs = {"", "?"}
 Fields2 = FALSE
 Variants2 = FALSE
