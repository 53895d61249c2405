INIT Init
NEXT Next
CONSTANT D = 3
CONSTANT L = 2
CONSTANT Entries <- EntriesDef
INVARIANTS AlwaysAState DiagonalIsPdf Pure Phase Dist NotPSD Quadratic Emit
CHECK_DEADLOCK FALSE
