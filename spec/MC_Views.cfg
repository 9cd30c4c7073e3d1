SPECIFICATION Spec
CONSTANTS Level = 1 Length = 2 Seconds = {0, 7, 19} Emit = TRUE
INVARIANTS Parts Around Whole Partition Means Export
CHECK_DEADLOCK FALSE
