INIT Init
NEXT Next
CONSTANT N = 2
CONSTANT L = 2
CONSTANT Weights = {1, 10, 12}
CONSTANT Loose = FALSE
INVARIANTS State Wick Purity Overlap Vacuum Emit
CHECK_DEADLOCK FALSE
