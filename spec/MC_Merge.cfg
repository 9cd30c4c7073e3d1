SPECIFICATION Spec
CONSTANTS
 N = 3
 MaxRuns = 2
 Emit = TRUE
INVARIANTS NoLoss After Refused Done Export
CHECK_DEADLOCK FALSE
