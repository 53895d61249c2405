INIT Init
NEXT Next
CONSTANT Ns = {6}
CONSTANT EMax = 5
CONSTANT Ws <- WDef
INVARIANTS Tracked OddIsZero Factors
CHECK_DEADLOCK FALSE
