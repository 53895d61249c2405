INIT Init
NEXT Next
CONSTANT N = 3
CONSTANT L = 2
CONSTANT Weights = {1, 11}
CONSTANT Loose = FALSE
INVARIANTS State Wick Purity Overlap Vacuum
CHECK_DEADLOCK FALSE
