SPECIFICATION Spec
CONSTANTS
 N = 4
 MaxRuns = 4
 Emit = FALSE
INVARIANTS NoLoss After Refused Done Export
CHECK_DEADLOCK FALSE
