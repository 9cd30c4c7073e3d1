INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 Times = {3, 4}
 Vals = {1, 2}
 Depth = 3
 Emit = TRUE
INVARIANTS LastWritten NeverOther ReadsKeep Emitted
