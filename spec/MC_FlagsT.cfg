CONSTANTS D = 4 Range = 2 Thr = 2 Emit = FALSE
INIT Init
NEXT Next
INVARIANTS OwnBits Meaning Stable Emitted
CHECK_DEADLOCK FALSE
