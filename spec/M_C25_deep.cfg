INIT Init
NEXT Next
CONSTANT D = 2
CONSTANT L = 3
CONSTANT Entries <- EntriesDeep
INVARIANTS AlwaysAState DiagonalIsPdf Pure Phase Dist NotPSD Quadratic
CHECK_DEADLOCK FALSE
