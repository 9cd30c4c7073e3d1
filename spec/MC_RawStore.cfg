INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 Days = {1, 2}
 Locs = {0, 1}
 MaxObs = 1
 NC = 1
 Emit = TRUE
INVARIANTS DayExact PlaceExact NothingLost Emitted
