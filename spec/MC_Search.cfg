CONSTANTS MaxFiles = 2 Emit = TRUE
INIT Init
NEXT Next
INVARIANTS Outcome Accounted
CHECK_DEADLOCK FALSE
