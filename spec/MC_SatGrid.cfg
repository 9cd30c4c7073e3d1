SPECIFICATION Spec
CONSTANTS
 MaxFiles = 2
 MaxPixels = 2
 Emit = TRUE
INVARIANTS Exact Reported Silent Wrapped Export
CHECK_DEADLOCK FALSE
