CONSTANTS MaxFiles = 4 Emit = TRUE
INIT Init
NEXT Next
INVARIANTS Outcome Accounted
CHECK_DEADLOCK FALSE
