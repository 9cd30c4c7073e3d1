SPECIFICATION Spec
CONSTANTS
 Comps = {1, 2}
 Times = {1, 2}
 Depth = 6
 MaxLat = 12
 Emit = FALSE
INVARIANTS Fresh OfComponent Once Export
CHECK_DEADLOCK FALSE
