CONSTANTS Free = FALSE LastIt = 1 Splits = 1
INIT Init
NEXT Next
INVARIANT NoEarlyStart
INVARIANT ChainSafe
INVARIANT Exact
INVARIANT Once
CHECK_DEADLOCK FALSE
