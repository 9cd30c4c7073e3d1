SPECIFICATION Spec
CONSTANTS
 MaxBatches = 2
 MaxPoints = 2
 Emit = FALSE
INVARIANTS Together Apart Between Export
CHECK_DEADLOCK FALSE
