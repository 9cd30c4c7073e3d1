INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 N = 2
 D = 2
 V <- VSmall
 Q = {0, 4}
 E <- ESmall
 L = 1
 Emit = TRUE
INVARIANTS DayIsPart Union OnlyHides Absent Heights Emitted
