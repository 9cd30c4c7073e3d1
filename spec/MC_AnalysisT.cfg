SPECIFICATION Spec
CONSTANTS
 NTimes = 3
 MaxActs = 4
 MaxComps = 3
 Emit = FALSE
INVARIANTS Once NotItself OwnTimes Complete Export
PROPERTY OnlyOne
CHECK_DEADLOCK FALSE
