CONSTANTS MaxN = 4 MaxT = 4 Emit = TRUE
SPECIFICATION Spec
INVARIANTS SplitOK Done NoEarly
PROPERTY Returns
CHECK_DEADLOCK FALSE
