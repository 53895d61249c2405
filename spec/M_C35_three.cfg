INIT Init
NEXT Next
CONSTANT N = 3
CONSTANT L = 1
CONSTANT Weights = {1, 21}
CONSTANT Loose = FALSE
INVARIANTS State Wick Purity Overlap Vacuum Emit
CHECK_DEADLOCK FALSE
