SPECIFICATION Spec
CONSTANTS
 NTimes = 2
 MaxActs = 3
 MaxComps = 2
 Emit = TRUE
INVARIANTS Once NotItself OwnTimes Complete Export
PROPERTY OnlyOne
CHECK_DEADLOCK FALSE
