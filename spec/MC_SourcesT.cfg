INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 N = 2
 D = 2
 V <- VBig
 Q = {0, 4}
 E <- EBig
 L = 1
 Emit = TRUE
INVARIANTS DayIsPart Union OnlyHides Absent Heights Emitted
