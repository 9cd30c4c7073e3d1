SPECIFICATION Spec
CONSTANTS
 Comps = {1, 2}
 Times = {1, 2}
 Depth = 4
 MaxLat = 6
 Emit = TRUE
INVARIANTS Fresh OfComponent Once Export
CHECK_DEADLOCK FALSE
