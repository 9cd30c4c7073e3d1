CONSTANTS Free = TRUE LastIt = 1 Splits = 2
INIT Init
NEXT Next
INVARIANT NoEarlyStart
INVARIANT ChainSafe
INVARIANT Exact
INVARIANT Once
CHECK_DEADLOCK FALSE
