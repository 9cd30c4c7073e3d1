CONSTANTS D = 3 Range = 1 Thr = 1 Emit = TRUE
INIT Init
NEXT Next
INVARIANTS OwnBits Meaning Stable Emitted
CHECK_DEADLOCK FALSE
