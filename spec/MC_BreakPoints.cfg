INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 S = 2
 T = 2
 K = {1, 64, 127}
 L = 3
 F = 1
 Emit = TRUE
INVARIANTS Exact Again Counted Stays Assigned Emitted
