INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 Times = {3, 4}
 Vals = {1, 2}
 Depth = 5
 Emit = FALSE
INVARIANTS LastWritten NeverOther ReadsKeep Emitted
