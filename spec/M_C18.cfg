INIT Init
NEXT Next
CONSTANT Ns = {1, 2, 3, 4, 5}
CONSTANT EMax = 6
CONSTANT Ws <- WDef
INVARIANTS Tracked OddIsZero Factors Emit
CHECK_DEADLOCK FALSE
