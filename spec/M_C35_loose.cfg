INIT Init
NEXT Next
CONSTANT N = 2
CONSTANT L = 3
CONSTANT Weights = {1, 12}
CONSTANT Loose = TRUE
INVARIANTS Wick
CHECK_DEADLOCK FALSE
