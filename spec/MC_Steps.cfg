CONSTANTS Y0 = 1899 Days = 1300 Emit = TRUE
INIT Init
NEXT Next
INVARIANTS Calendar Numbering Emitted
CHECK_DEADLOCK FALSE
