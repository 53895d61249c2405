INIT Init
NEXT Next
CONSTANT N = 2
CONSTANT L = 3
CONSTANT Weights = {1, 10, 12, 11}
CONSTANT Loose = FALSE
INVARIANTS State Wick Purity Overlap Vacuum
CHECK_DEADLOCK FALSE
