CONSTANTS Y0 = 1850 Days = 62000 Emit = TRUE
INIT Init
NEXT Next
INVARIANTS Calendar Numbering Emitted
CHECK_DEADLOCK FALSE
