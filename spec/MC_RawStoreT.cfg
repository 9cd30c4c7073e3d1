INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 Days = {1, 2}
 Locs = {0, 1}
 MaxObs = 2
 NC = 1
 Emit = FALSE
INVARIANTS DayExact PlaceExact NothingLost Emitted
