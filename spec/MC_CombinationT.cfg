SPECIFICATION Spec
CONSTANTS
 MaxLeaves = 3
 MaxN = 2
 MaxK = 2
 MaxSets = 2
 Emit = FALSE
INVARIANTS Cover Nested Inverse One Confined Export
CHECK_DEADLOCK FALSE
