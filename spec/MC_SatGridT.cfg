SPECIFICATION Spec
CONSTANTS
 MaxFiles = 3
 MaxPixels = 2
 Emit = FALSE
INVARIANTS Exact Reported Silent Wrapped Export
CHECK_DEADLOCK FALSE
