SPECIFICATION Spec
CONSTANTS
 MaxLeaves = 3
 MaxN = 2
 MaxK = 1
 MaxSets = 1
 Emit = TRUE
INVARIANTS Cover Nested Inverse One Confined Export
CHECK_DEADLOCK FALSE
