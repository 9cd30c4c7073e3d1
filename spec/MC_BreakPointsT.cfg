INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 S = 2
 T = 3
 K = {1, 127}
 L = 4
 F = 2
 Emit = TRUE
INVARIANTS Exact Again Counted Stays Assigned Emitted
