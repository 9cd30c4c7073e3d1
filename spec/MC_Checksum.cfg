CONSTANTS MaxN = 3 MaxT = 3 Emit = TRUE
SPECIFICATION Spec
INVARIANTS SplitOK Done NoEarly
PROPERTY Returns
CHECK_DEADLOCK FALSE
