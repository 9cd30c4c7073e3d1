CONSTANTS Free = FALSE LastIt = 2 Splits = 2
INIT Init
NEXT Next
INVARIANT NoEarlyStart
INVARIANT ChainSafe
INVARIANT Exact
INVARIANT Once
CHECK_DEADLOCK FALSE
