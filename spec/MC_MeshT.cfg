SPECIFICATION Spec
CONSTANTS Depth = 3 First = {0, 8} Emit = FALSE
INVARIANTS Nested Alone Closed Touch Finds Count
CHECK_DEADLOCK FALSE
