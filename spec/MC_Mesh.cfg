SPECIFICATION Spec
CONSTANTS Depth = 2 First = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19} Emit = TRUE
INVARIANTS Nested Alone Closed Touch Finds Count Export
CHECK_DEADLOCK FALSE
