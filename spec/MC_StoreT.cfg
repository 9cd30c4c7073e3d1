INIT Init
NEXT Next
CONSTANTS Deep = TRUE Emit = TRUE
INVARIANT ReadBack
CHECK_DEADLOCK FALSE
