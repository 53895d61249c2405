INIT Init
NEXT Next
CONSTANT N = 2
CONSTANT L = 5
CONSTANT DEN = 8
INVARIANTS Checks Inverse Emit
CHECK_DEADLOCK FALSE
