SPECIFICATION Spec
CONSTANTS
 MaxBatches = 2
 MaxPoints = 1
 Emit = TRUE
INVARIANTS Together Apart Between Export
CHECK_DEADLOCK FALSE
