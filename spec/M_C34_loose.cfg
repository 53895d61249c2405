INIT Init
NEXT Next
CONSTANT N = 2
CONSTANT L = 1
CONSTANT EMax = 2
CONSTANT Loose = TRUE
INVARIANTS Moments
CHECK_DEADLOCK FALSE
