INIT Init
NEXT Next
CONSTANTS Deep = FALSE Emit = TRUE
INVARIANT ReadBack
CHECK_DEADLOCK FALSE
